----------------------------- MODULE BwtRunsMC -----------------------------
(* BwtRuns against Bwt, for all short texts of its kinds *)
EXTENDS BwtRuns
CONSTANTS MaxRun
VARIABLE f

Shapes ==
  [kind : {"two"}, a : {1, 2}, b : {1, 2}, n : 1..MaxRun, m : 1..MaxRun]
  \cup [kind : {"two"}, a : {1}, b : {2}, n : 1..(2 * MaxRun), m : {0}]
  \cup {[kind |-> "alt", a |-> p[1], b |-> p[2], n |-> n, m |-> n] : p \in {<<1, 2>>, <<2, 1>>}, n \in 1..MaxRun}

Init == f \in {s \in Shapes : s.m = 0 \/ s.a # s.b}
Next == UNCHANGED f
Spec == Init /\ [][Next]_f

ColumnOK == Expand(Column(f)) = LastColumn(Text(f))
StoredOK == Expand(StoredRuns(f)) = Stored(LastColumn(Text(f)))
EobOK    == EobOf(f) = EobRow(LastColumn(Text(f))) - 1
RowsOK   == \A count \in 1..(Size(f) + 1) : Rows(f, count) = StartRows(LastColumn(Text(f)), count)
=============================================================================
