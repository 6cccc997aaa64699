-------------------------------- MODULE BwtMC --------------------------------
(***************************************************************************)
(* The definitions of Bwt checked against each other for all the strings     *)
(* over a small alphabet.                                                   *)
(***************************************************************************)
EXTENDS Bwt
CONSTANTS Alphabet, MaxLen
VARIABLE x

Init == x = <<>>
Next == Len(x) < MaxLen /\ \E c \in Alphabet : x' = Append(x, c)
Spec == Init /\ [][Next]_x

(* the inverse is one *)
Inverts == LET col == LastColumn(x) IN
             /\ InverseWalk(col) = x
             /\ x # <<>> => Restore(Stored(col), EobRow(col) - 1) = col
             /\ x # <<>> => InverseBwt(Stored(col), EobRow(col) - 1) = x

(* a column whose walk visits every row is the transform of what is spelled,
   so for long blocks the walk may be used in place of the definition *)
Columns(n) == {c \in [1..n -> Alphabet \cup {Sentinel}] :
                 Cardinality({i \in 1..n : c[i] = Sentinel}) = 1}
CertificateComplete ==
  (Len(x) = MaxLen - 1) =>
    \A i \in 1..(Len(x) + 1) :
      LET col == [k \in 1..(Len(x) + 1) |-> IF k = i THEN Sentinel ELSE IF k < i THEN x[k] ELSE x[k - 1]]
          t   == InverseWalk(col)
      IN (\A k \in 1..Len(t) : t[k] # Sentinel) => LastColumn(t) = col

(* starting points: from row r[i] on, the walk spells the rest of the block
   after i * (n+1 div count) - 1 bytes *)
WalkFrom(col, row, n) ==
  LET lf == LFMap(col)
  IN FoldLeft(LAMBDA a, i : <<lf[a[1]], Append(a[2], col[a[1]])>>, <<row, <<>> >>, [i \in 1..n |-> i])[2]
StartsOK ==
  x # <<>> =>
  LET col == LastColumn(x)
      n   == Len(col)
  IN \A count \in 1..n :
       LET rows == StartRows(col, count)
           d == n \div count
       IN /\ Len(rows) = count
          /\ rows[1] = EobRow(col) - 1
          /\ \A i \in 2..count :
               LET at == (i - 1) * d          \* bytes at-1.. of the block, 0-based
               IN WalkFrom(col, rows[i] + 1, n - at) = SubSeq(x, at, Len(x))
(* LFMap by its definition *)
LFDefined ==
  LET col == LastColumn(x)
      lf == LFMap(col)
  IN \A i \in 1..Len(col) :
       lf[i] = 1 + Cardinality({k \in 1..Len(col) : col[k] < col[i] \/ (col[k] = col[i] /\ k < i)})
=============================================================================
