----------------------------- MODULE PipelineMC -----------------------------
(***************************************************************************)
(* Pipeline with an ideal codec and all histories of at most Steps runs,     *)
(* starting from two contents and feeding results back to the tools          *)
(* (archives of archives, cut archives compressed again and so on).          *)
(* Checks that the rules hang together: an ideal codec is never rejected,    *)
(* every file can be brought back to where it came from, and what was cut    *)
(* can't be mistaken for something whole.                                    *)
(***************************************************************************)
EXTENDS Pipeline
CONSTANTS Opts, Steps
Raw == {<<"raw", 1>>, <<"raw", 2>>}

VARIABLES files, n
all == <<arc, made, pre, premade, cut, size, files, n>>

(* contents are terms *)
MCInit == Init /\ files = Raw /\ n = 0
IsCut(f) == f[1] = "cut"
Depth(f) == IF f[1] = "raw" THEN 0 ELSE 1

(* The ideal tools *)
Arc(f, o) == <<"arc", f, o>>
Pre(f, o) == <<"pre", f, o>>
CutOf(f)  == <<"cut", f>>

Step(A, new) == /\ n < Steps /\ n' = n + 1 /\ A /\ files' = files \cup new

Do ==
  \E f \in files :
    \/ \E o \in Opts : \/ Step(Compress(f, o, Arc(f, o), 0), {Arc(f, o)})
                       \/ Step(Preprocess(f, o, Pre(f, o), 0), {Pre(f, o)})
    \/ f[1] = "arc" /\ Step(Uncompress(f, f[2], 0), {f[2]})
    \/ f[1] = "pre" /\ Step(Postprocess(f, f[2], 0), {f[2]})
    \/ f[1] \in {"arc", "pre"} /\ Step(Cut(f, CutOf(f)), {CutOf(f)})
    \/ f[1] = "cut" /\ Step(UncompressCut(f, 1), {})
    \/ Step(FaultyRun(1), {})

MCSpec == MCInit /\ [][Do]_all

(* Liveness of the user: the ideal decoder is never refused by the rules *)
CanDecode ==
  \A f \in files :
    /\ f[1] = "arc" /\ f \in DOMAIN arc => ENABLED Uncompress(f, f[2], 0)
    /\ f[1] = "cut" /\ f \in cut => ENABLED UncompressCut(f, 1) /\ ~ENABLED Uncompress(f, f[2], 0)
(* and a wrong one always is *)
CannotLose ==
  \A f \in DOMAIN arc : \A g \in files : g # arc[f] => ~ENABLED Uncompress(f, g, 0)
CannotVary ==
  \A k \in DOMAIN made : \A g \in files : g # made[k] => ~ENABLED Compress(k[1], k[2], g, 0)
=============================================================================
