----------------------------- MODULE HuffmanCode -----------------------------
(***************************************************************************)
(* One section of an archive slice as coded with 'H': the symbols of the    *)
(* runs with a Huffman code, then the lengths of the runs with Elias gamma. *)
(***************************************************************************)
EXTENDS Codes

(* lens: sequence of <<length, symbol>>, symbols ascending.
   Tables by length: number of codes, the first code and the symbols *)
HuffTables(lens, maxLen) ==
  LET byLen == [l \in 1..maxLen |->
                  LET s == SelectSeq(lens, LAMBDA p : p[1] = l)
                  IN [i \in 1..Len(s) |-> s[i][2]]]
      cnt   == [l \in 1..maxLen |-> Len(byLen[l])]
  IN [syms |-> byLen, start |-> [l \in 1..maxLen |-> RightStart(cnt, l, maxLen)]]

(* one symbol: the codes of length l are start(l), start(l)+1, ... and
   everything below start(l) is a prefix of a longer code *)
RECURSIVE HuffSymbol(_, _, _, _, _, _)
HuffSymbol(d, t, maxLen, k, l, v) ==
  LET v2 == 2 * v + BitAt(d, k)
      l2 == l + 1
  IN IF l2 > maxLen THEN [val |-> -1, next |-> k + 1]
     ELSE IF v2 >= t.start[l2]
     THEN (IF v2 - t.start[l2] < Len(t.syms[l2])
           THEN [val |-> t.syms[l2][v2 - t.start[l2] + 1], next |-> k + 1]
           ELSE [val |-> -1, next |-> k + 1])
     ELSE HuffSymbol(d, t, maxLen, k + 1, l2, v2)

HuffShape(d, k) ==
  LET maxS == BitsAt(d, k, 8)
      n0   == BitsAt(d, k + 8, 8)
      n    == IF n0 = 0 THEN 256 ELSE n0
      ml   == UnpackBit(d, k + 16)
  IN IF ml.val \notin 1..28 \/ n > maxS + 1 THEN [ok |-> FALSE, lens |-> <<>>, maxLen |-> 1, next |-> ml.next] ELSE
     With(Interpolative(d, ml.next, 0, maxS, n), LAMBDA syms :
     With(UnaryList(d, syms.next, n), LAMBDA un :
       [ok |-> \A i \in 1..n : un.val[i] <= ml.val,
        lens |-> [i \in 1..n |-> <<ml.val - un.val[i] + 1, syms.val[i]>>],
        maxLen |-> ml.val, next |-> un.next]))

HuffSection(d, pos, size) ==
  LET nr == Unpack(d, pos)
  IN With(HuffShape(d, 8 * (nr.next - 1)), LAMBDA sh :
     IF ~sh.ok \/ nr.val \notin 1..size
     THEN [ok |-> FALSE, runs |-> <<>>, lens |-> <<>>, next |-> pos + 1]
     ELSE
     With(HuffTables(sh.lens, sh.maxLen), LAMBDA t :
     LET k2 == ((sh.next + 7) \div 8) * 8
         all == [i \in 1..nr.val |-> i]
     IN With(FoldLeft(LAMBDA a, i : LET r == HuffSymbol(d, t, sh.maxLen, a[1], 0, 0)
                                    IN <<r.next, Append(a[2], r.val)>>,
                      <<k2, <<>> >>, all), LAMBDA ss :
        With(FoldLeft(LAMBDA a, i : LET r == Gamma(d, a[1])
                                    IN <<r.next, Append(a[2], r.val)>>,
                      <<((ss[1] + 7) \div 8) * 8, <<>> >>, all), LAMBDA ll :
          [ok |-> TRUE,
           runs |-> [i \in 1..nr.val |-> <<ss[2][i], ll[2][i]>>],
           lens |-> sh.lens,
           next |-> ((ll[1] + 7) \div 8) + 1]))))
=============================================================================
