------------------------------ MODULE BwtRuns ------------------------------
(***************************************************************************)
(* Transforms of texts too long to be spelled out: a^n b^m and (ab)^n.       *)
(* Columns are sequences of <<count, symbol>>; starting points follow from   *)
(* the row of each suffix.  BwtRunsMC checks all of it against Bwt for small  *)
(* n and m; BwtRunsTrace uses it for blocks of more than 2^24 bytes.         *)
(***************************************************************************)
EXTENDS Bwt

(* [kind |-> "two"|"alt", a, b, n, m]; in "alt" m = n *)
Expand(rle) == FlattenSeq([i \in 1..Len(rle) |-> [k \in 1..rle[i][1] |-> rle[i][2]]])

Text(f) ==
  IF f.kind = "two" THEN [i \in 1..(f.n + f.m) |-> IF i <= f.n THEN f.a ELSE f.b]
  ELSE [i \in 1..(2 * f.n) |-> IF i % 2 = 1 THEN f.a ELSE f.b]

Size(f) == f.n + f.m

(* joins neighbours and drops what is empty *)
Join(rle) ==
  FoldLeft(LAMBDA acc, r :
    IF r[1] = 0 THEN acc
    ELSE IF acc # <<>> /\ acc[Len(acc)][2] = r[2]
         THEN [acc EXCEPT ![Len(acc)] = <<@[1] + r[1], @[2]>>]
         ELSE Append(acc, r), <<>>, rle)

(* the last column, sentinel included; n, m >= 1 and a # b, or m = 0 *)
Column(f) ==
  Join(
    IF f.kind = "two"
    THEN IF f.m = 0 THEN << <<f.n, f.a>>, <<1, Sentinel>> >>
         ELSE IF f.a < f.b
         THEN << <<f.n, f.a>>, <<1, f.b>>, <<f.m - 1, f.b>>, <<1, Sentinel>> >>
         ELSE << <<1, f.a>>, <<1, Sentinel>>, <<f.m - 1, f.b>>, <<f.n - 1, f.a>>, <<1, f.b>> >>
    ELSE IF f.a < f.b
         THEN << <<1, f.a>>, <<f.n, f.b>>, <<f.n - 1, f.a>>, <<1, Sentinel>> >>
         ELSE << <<1, f.a>>, <<f.n - 1, f.a>>, <<1, Sentinel>>, <<f.n, f.b>> >>)

(* 0-based row of the suffix of the reversed text that has length k *)
Row(f, k) ==
  IF k = 0 THEN 0
  ELSE IF f.kind = "two"
  THEN IF k <= f.n THEN (IF f.a < f.b \/ f.m = 0 THEN k ELSE f.m + k)
       ELSE (IF f.a < f.b THEN k ELSE f.m - (k - f.n) + 1)
  ELSE (* odd: a(ba)^i, even: (ba)^i *)
       IF k % 2 = 1 THEN 1 + k \div 2 + (IF f.a < f.b THEN 0 ELSE f.n)
       ELSE k \div 2 + (IF f.a < f.b THEN f.n ELSE 0)

EobOf(f) == Row(f, Size(f))

Rows(f, count) ==
  LET x == (Size(f) + 1) \div count
  IN [i \in 1..count |-> IF i = 1 THEN EobOf(f) ELSE Row(f, (i - 1) * x - 1)]

(* what is stored: the last byte in place of the sentinel *)
StoredRuns(f) ==
  LET c == Column(f)
      last == c[Len(c)]
  IN IF last[2] = Sentinel THEN SubSeq(c, 1, Len(c) - 1)
     ELSE Join([i \in 1..Len(c) |->
                 IF c[i][2] = Sentinel THEN <<1, last[2]>>
                 ELSE IF i = Len(c) THEN <<c[i][1] - 1, c[i][2]>> ELSE c[i]])
=============================================================================
