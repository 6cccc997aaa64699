--------------------------------- MODULE Bwt ---------------------------------
(***************************************************************************)
(* Burrows-Wheeler transform as bwtc defines it.  The block is reversed and *)
(* followed by a sentinel smaller than every byte; the transform is the     *)
(* last column of the sorted rotations.  The row of the sentinel is not     *)
(* stored: its place holds the last byte of the column instead, and the     *)
(* position is remembered as the first starting point.                      *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(***************************************************************************)
(* Definition                                                               *)
(***************************************************************************)
RECURSIVE SuffixLess(_, _, _)
(* suffixes of t starting from a and b (the sentinel is implicit) *)
SuffixLess(t, a, b) ==
  IF a > Len(t) THEN b <= Len(t)
  ELSE IF b > Len(t) THEN FALSE
  ELSE IF t[a] # t[b] THEN t[a] < t[b]
  ELSE SuffixLess(t, a + 1, b + 1)

(* Suffix array of t with the sentinel: rows 1..n+1 hold positions 1..n+1 *)
SuffixArray(t) ==
  SortSeq([i \in 1..(Len(t) + 1) |-> i], LAMBDA a, b : SuffixLess(t, a, b))

Sentinel == -1
(* The whole last column, sentinel included *)
LastColumn(block) ==
  LET t  == Rev(block)
      sa == SuffixArray(t)
  IN [i \in 1..Len(sa) |-> IF sa[i] = 1 THEN Sentinel ELSE t[sa[i] - 1]]

(* Folds over s, keeping an output for each element: Op(state, x) is
   <<state, output>>.  In pieces, since appending copies. *)
Scan(Op(_, _), init, s) ==
  LET size == 500
  IN FlattenSeq(
       FoldLeft(LAMBDA a, k :
         With(FoldLeft(LAMBDA b, x : With(Op(b[1], x), LAMBDA r : <<r[1], Append(b[2], r[2])>>),
                       <<a[1], <<>> >>, SubSeq(s, (k - 1) * size + 1, Min2(k * size, Len(s)))),
              LAMBDA r : <<r[1], Append(a[2], r[2])>>),
         <<init, <<>> >>, [k \in 1..((Len(s) + size - 1) \div size) |-> k])[2])

(***************************************************************************)
(* LF mapping of a last column with one sentinel.  Sequence over rows.      *)
(***************************************************************************)
(* row i goes to: rows with smaller symbols, and the earlier ones with the same *)
LFMap(col) ==
  With(FoldLeft(LAMBDA a, c : [a EXCEPT ![c + 2] = @ + 1], Force(Zeros(257)), col), LAMBDA cnt :
  With(FoldLeft(LAMBDA a, c : Append(a, a[c] + cnt[c]), <<0>>, [c \in 1..256 |-> c]), LAMBDA start :
    Scan(LAMBDA a, c : << [a EXCEPT ![c + 2] = @ + 1], a[c + 2] + 1 >>, start, col)))

(* What is stored: the bytes without the sentinel's row *)
Stored(col) ==
  LET n == Len(col)
      e == CHOOSE i \in 1..n : col[i] = Sentinel
  IN [i \in 1..(n - 1) |-> IF i = e THEN col[n] ELSE col[i]]

EobRow(col) == CHOOSE i \in 1..Len(col) : col[i] = Sentinel

(* and back *)
Restore(stored, eob) ==      \* eob: 0-based row of the sentinel
  LET n == Len(stored) + 1
  IN [i \in 1..n |-> IF i = eob + 1 THEN Sentinel
                     ELSE IF i = n THEN stored[eob + 1] ELSE stored[i]]

NumStarts(n, wanted) ==
  IF n <= 256 \/ wanted = 0 THEN 1 ELSE Min2(wanted, 256)

(* rows, 0-based, at distances 0, x, 2x, ... along the LF cycle *)
StartRows(col, count) ==
  With(LFMap(col), LAMBDA lf :
    LET n == Len(col)
        x == n \div count
    IN FoldLeft(LAMBDA a, i :
                <<lf[a[1]], IF i % x = 0 /\ Len(a[2]) < count
                            THEN Append(a[2], a[1] - 1) ELSE a[2]>>,
              <<EobRow(col), <<>> >>, [i \in 1..n |-> i - 1])[2])

(***************************************************************************)
(* Inverse.  Walks the cycle from the sentinel row: the walk spells the     *)
(* reversed text backwards, that is the original block forwards.            *)
(***************************************************************************)
InverseWalk(col) ==
  With(LFMap(col), LAMBDA lf :
    Scan(LAMBDA a, i : <<lf[a], col[a]>>, lf[EobRow(col)], [i \in 1..(Len(col) - 1) |-> i]))

(* The walk visits every row exactly once iff the column is a transform *)
SingleCycle(col) == \A i \in 1..(Len(col) - 1) : InverseWalk(col)[i] # Sentinel

(* From what is stored to the block *)
InverseBwt(stored, eob) == InverseWalk(Restore(stored, eob))

Frequencies(s) == [c \in 0..255 |-> Len(SelectSeq(s, LAMBDA x : x = c))]
=============================================================================
