------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* What the user of the four tools sees: contents of files go in, contents  *)
(* and an exit status come out.  A content is identified by an opaque id.   *)
(*                                                                          *)
(* The state is what a history of runs has established:                     *)
(*   arc      archive -> content it is an archive of                        *)
(*   made     <<content, options>> -> archive.  Options are those that may   *)
(*            influence the archive; the way of delivering the bytes, the    *)
(*            choice of the BWT algorithm, verbosity, compiler, contents of  *)
(*            uninitialised memory etc. are not among them.                  *)
(*   pre, premade   the same for preprocessed contents                      *)
(*   cut      contents that are strict prefixes of archives                 *)
(*   size     content -> its length in bytes                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES arc, made, pre, premade, cut, size
vars == <<arc, made, pre, premade, cut, size>>

Empty == <<>>

Init == /\ arc = Empty /\ made = Empty /\ pre = Empty /\ premade = Empty
        /\ cut = {} /\ size = Empty

Agrees(f, k, v) == k \in DOMAIN f => f[k] = v
Put(f, k, v) == (k :> v) @@ f

(* Content i, given to compress with options o, became a; exit status rc *)
Compress(i, o, a, rc) ==
  /\ rc = 0
  /\ Agrees(made, <<i, o>>, a)       \* a function of content and options
  /\ Agrees(arc, a, i)               \* and an injective one
  /\ a \notin cut                    \* no archive is a prefix of another
  /\ arc' = Put(arc, a, i)
  /\ made' = Put(made, <<i, o>>, a)
  /\ UNCHANGED <<pre, premade, cut, size>>

Uncompress(a, i, rc) ==
  /\ a \in DOMAIN arc
  /\ rc = 0
  /\ i = arc[a]
  /\ UNCHANGED vars

Preprocess(i, o, p, rc) ==
  /\ rc = 0
  /\ Agrees(premade, <<i, o>>, p)
  /\ Agrees(pre, p, i)
  /\ p \notin cut
  /\ pre' = Put(pre, p, i)
  /\ premade' = Put(premade, <<i, o>>, p)
  /\ UNCHANGED <<arc, made, cut, size>>

Postprocess(p, i, rc) ==
  /\ p \in DOMAIN pre
  /\ rc = 0
  /\ i = pre[p]
  /\ UNCHANGED vars

(* c is a strict prefix of a, and by the specification of the format no
   archive by itself *)
Cut(a, c) ==
  /\ a \in DOMAIN arc \/ a \in DOMAIN pre
  /\ c \notin DOMAIN arc /\ c \notin DOMAIN pre
  /\ cut' = cut \cup {c}
  /\ UNCHANGED <<arc, made, pre, premade, size>>

(* Decoders have to refuse what was cut, whatever they wrote before noticing:
   an exit status of 1..125, i.e. no signal and no endless run *)
Refused(rc) == rc \in 1..125
UncompressCut(c, rc) ==
  /\ c \in cut
  /\ Refused(rc)
  /\ UNCHANGED vars

(* A run in which the operating system refused some reading or writing, or
   the options made no sense *)
FaultyRun(rc) ==
  /\ Refused(rc)
  /\ UNCHANGED vars

(* A run which met a fault but may have got over it: exit status 0 promises
   the same result as without the fault *)
CompressUnderFault(i, o, a, rc) ==
  \/ Refused(rc) /\ UNCHANGED vars
  \/ Compress(i, o, a, rc)
UncompressUnderFault(a, i, rc) ==
  \/ Refused(rc) /\ UNCHANGED vars
  \/ Uncompress(a, i, rc)
PreprocessUnderFault(i, o, p, rc) ==
  \/ Refused(rc) /\ UNCHANGED vars
  \/ Preprocess(i, o, p, rc)
PostprocessUnderFault(p, i, rc) ==
  \/ Refused(rc) /\ UNCHANGED vars
  \/ Postprocess(p, i, rc)

(* Short of memory.  How the run ends is up to the language runtime; ending
   well promises the right result. *)
Failed(rc) == rc \in (1..255) \cup (-64..-1)
CompressStarved(i, o, a, rc) ==
  \/ Failed(rc) /\ UNCHANGED vars
  \/ Compress(i, o, a, rc)
UncompressStarved(a, i, rc) ==
  \/ Failed(rc) /\ UNCHANGED vars
  \/ Uncompress(a, i, rc)
PreprocessStarved(i, o, p, rc) ==
  \/ Failed(rc) /\ UNCHANGED vars
  \/ Preprocess(i, o, p, rc)
PostprocessStarved(p, i, rc) ==
  \/ Failed(rc) /\ UNCHANGED vars
  \/ Postprocess(p, i, rc)

(* Facts of sizes told to the user *)
Reported(told, actual) == told = actual /\ UNCHANGED vars

(***************************************************************************)
(* What these rules give for every history                                  *)
(***************************************************************************)
Lossless  == \A k \in DOMAIN made : made[k] \in DOMAIN arc /\ arc[made[k]] = k[1]
PreLossless == \A k \in DOMAIN premade : premade[k] \in DOMAIN pre /\ pre[premade[k]] = k[1]
Injective == \A k1, k2 \in DOMAIN made : made[k1] = made[k2] => k1[1] = k2[1]
NoArchiveIsCut == cut \cap (DOMAIN arc \cup DOMAIN pre) = {}
=============================================================================
