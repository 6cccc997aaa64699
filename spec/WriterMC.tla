------------------------------- MODULE WriterMC -------------------------------
(***************************************************************************)
(* All archives of all short texts: whatever the writer chooses (sections,    *)
(* codes, parameters, starting points), the decoder finds the text.  Two       *)
(* slices of the same text, so that the models go on from one to the other.    *)
(***************************************************************************)
EXTENDS Writer
CONSTANTS Letters, MaxText, Coders, Ws
VARIABLES coder, text, starts, secs
vars == <<coder, text, starts, secs>>

Init == /\ coder \in Coders
        /\ text \in UNION {[1..n -> Letters] : n \in 1..MaxText}
        /\ starts \in {1, 2, Len(text) + 1}
        /\ secs = <<>>

Covered == SumSeq([i \in 1..Len(secs) |-> secs[i].size])
(* complete codes for an ascending sequence of symbols *)
Codes(syms) ==
  LET n == Len(syms)
      ls == IF n = 1 THEN {<<1>>}
            ELSE {s \in [1..n -> 1..(n - 1)] : KraftSum(s, n - 1) = Pow2(n - 1)}
  IN {[i \in 1..n |-> <<s[i], syms[i]>>] : s \in ls}
Ascending(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

Add(size) ==
  LET x == SubSeq(Stored(LastColumn(text)), Covered + 1, Covered + size)
      runs == RunsOf(x)
      syms == Ascending({x[i] : i \in 1..Len(x)})
      lens == {runs[i][2] : i \in 1..Len(runs)}
  IN \E pairs \in Codes(syms), w \in IF coder = "H" THEN {0} ELSE Ws :
     \E coded \in IF coder = "H" THEN {{}} ELSE SUBSET lens :
     \E ip \in IF coded = {} THEN {<<>>} ELSE Codes(Ascending(coded \cup {0})) :
       secs' = Append(secs, [size |-> size, pairs |-> pairs, ipairs |-> ip, w |-> w])
Next == /\ Covered < Len(text)
        /\ \E size \in 1..(Len(text) - Covered) : Add(size)
        /\ UNCHANGED <<coder, text, starts>>
Spec == Init /\ [][Next]_vars

Slice1 == [text |-> text, starts |-> starts, sections |-> secs]
Plan == [coder |-> coder, blocks |-> << [grammar |-> EmptyGrammar, slices |-> <<Slice1, Slice1>>] >>]
Decoded == Covered = Len(text) => IsArchiveOf(WriteArchive(Plan), text \o text)
=============================================================================
