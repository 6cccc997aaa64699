-------------------------------- MODULE Codes --------------------------------
(***************************************************************************)
(* The integer and prefix codes of the archive format.  Readers work on     *)
(* (byte sequence, bit position) and return [val, next].                    *)
(***************************************************************************)
EXTENDS Bytes

(***************************************************************************)
(* Unary: n is n-1 zeros and a one                                          *)
(***************************************************************************)
UnaryCode(n) == Zeros(n - 1) \o <<1>>

RECURSIVE UnaryFrom(_, _, _)
UnaryFrom(d, k, n) ==
  IF BitAt(d, k) = 1 \/ k > 8 * Len(d) THEN [val |-> n, next |-> k + 1]
  ELSE UnaryFrom(d, k + 1, n + 1)
Unary(d, k) == UnaryFrom(d, k, 1)

UnaryList(d, k, n) ==
  FoldLeft(LAMBDA a, i : LET u == Unary(d, a.next)
                         IN [val |-> Append(a.val, u.val), next |-> u.next],
           [val |-> <<>>, next |-> k], [i \in 1..n |-> i])

(***************************************************************************)
(* Elias gamma: floor(log n) zeros and the binary representation            *)
(***************************************************************************)
GammaCode(n) == Zeros(LogFloor(n)) \o BitsOf(n, LogFloor(n) + 1)

Gamma(d, k) == LET z == UnaryFrom(d, k, 0)
               IN [val |-> Pow2(z.val) + BitsAt(d, z.next, z.val),
                   next |-> z.next + z.val]

(***************************************************************************)
(* Packed integers inside a bit string: "Rev" has the bits of each byte     *)
(* least significant first, the plain one most significant first.           *)
(***************************************************************************)
RevBits(v) == [i \in 1..8 |-> (v \div Pow2(i - 1)) % 2]
PackRevCode(n) == LET p == PackInt(n) IN Concat([i \in 1..Len(p) |-> RevBits(p[i])])
PackBitCode(n) == LET p == PackInt(n) IN Concat([i \in 1..Len(p) |-> BitsOf(p[i], 8)])

RevByteAt(d, k) ==
  BitAt(d, k) + 2 * BitAt(d, k+1) + 4 * BitAt(d, k+2) + 8 * BitAt(d, k+3)
  + 16 * BitAt(d, k+4) + 32 * BitAt(d, k+5) + 64 * BitAt(d, k+6) + 128 * BitAt(d, k+7)

RECURSIVE UnpackRevFrom(_, _, _, _)
UnpackRevFrom(d, k, shift, acc) ==
  LET b == RevByteAt(d, k)
      a == IF shift >= 28 THEN acc + ((b % 8) * Pow2(28)) ELSE acc + ((b % 128) * Pow2(shift))
  IN IF b >= 128 /\ shift < 28 THEN UnpackRevFrom(d, k + 8, shift + 7, a)
     ELSE [val |-> a, next |-> k + 8]
UnpackRev(d, k) == UnpackRevFrom(d, k, 0, 0)

RECURSIVE UnpackBitFrom(_, _, _, _)
UnpackBitFrom(d, k, shift, acc) ==
  LET b == BitsAt(d, k, 8)
      a == IF shift >= 28 THEN acc + ((b % 8) * Pow2(28)) ELSE acc + ((b % 128) * Pow2(shift))
  IN IF b >= 128 /\ shift < 28 THEN UnpackBitFrom(d, k + 8, shift + 7, a)
     ELSE [val |-> a, next |-> k + 8]
UnpackBit(d, k) == UnpackBitFrom(d, k, 0, 0)

(***************************************************************************)
(* Fixed integer code with parameter w: B ones, a zero and w + B bits        *)
(***************************************************************************)
FixedCode(x, w) ==
  LET b == LogFloor(x - 1 + Pow2(w)) - w
      y == x - (1 + (Pow2(b) - 1) * Pow2(w))
  IN Ones(b) \o <<0>> \o BitsOf(y, w + b)

(* -1: not yet complete *)
FixedValue(bits, w) ==
  LET z == SelectInSeq(bits, LAMBDA b : b = 0)
  IN IF z = 0 THEN -1
     ELSE LET b == z - 1
          IN IF Len(bits) < z + w + b \/ w + b > 28 THEN -1
             ELSE 1 + (Pow2(b) - 1) * Pow2(w)
                  + ValueOf(SubSeq(bits, z + 1, z + w + b))

(***************************************************************************)
(* A number lo..hi with a centered minimal binary code: the middle ones of  *)
(* the range get the shorter codewords.                                     *)
(***************************************************************************)
BinaryCode(n, lo, hi) ==
  LET range == hi - lo + 1
      cl    == LogCeil(range)
      short == Pow2(cl) - range
      long2 == (range - short) \div 2
      v     == n - lo
  IN IF range = 1 THEN <<>>
     ELSE IF v >= long2 /\ v < long2 + short THEN BitsOf(v, cl - 1)
     ELSE IF v < long2 THEN BitsOf(v, cl)
     ELSE BitsOf(v - short, cl)

Binary(d, k, lo, hi) ==
  LET range == hi - lo + 1
      cl    == LogCeil(range)
      short == Pow2(cl) - range
      long2 == (range - short) \div 2
      v     == BitsAt(d, k, cl - 1)
  IN IF range <= 1 THEN [val |-> lo, next |-> k]
     ELSE IF v >= long2 THEN [val |-> lo + v, next |-> k + cl - 1]
     ELSE LET u == 2 * v + BitAt(d, k + cl - 1)
          IN [val |-> IF u < long2 THEN lo + u ELSE lo + u + short, next |-> k + cl]

(***************************************************************************)
(* Binary interpolative code of an ascending sequence of n numbers lo..hi    *)
(***************************************************************************)
RECURSIVE InterpolativeCode(_, _, _)
InterpolativeCode(s, lo, hi) ==
  LET n == Len(s)
      h == (n - 1) \div 2
      r == (n \div 2) - h
      m == s[h + 1]
  IN IF n = 0 \/ n = hi - lo + 1 THEN <<>>
     ELSE BinaryCode(m, lo + h, hi - h - r)
          \o InterpolativeCode(SubSeq(s, 1, h), lo, m - 1)
          \o InterpolativeCode(SubSeq(s, h + 2, n), m + 1, hi)

RECURSIVE Interpolative(_, _, _, _, _)
Interpolative(d, k, lo, hi, n) ==
  IF n <= 0 THEN [val |-> <<>>, next |-> k]
  ELSE IF n >= hi - lo + 1 THEN [val |-> [i \in 1..n |-> lo + i - 1], next |-> k]
  ELSE LET h == (n - 1) \div 2
           r == (n \div 2) - h
           m == Binary(d, k, lo + h, hi - h - r)
           a == Interpolative(d, m.next, lo, m.val - 1, h)
           b == Interpolative(d, a.next, m.val + 1, hi, n - h - 1)
       IN [val |-> a.val \o <<m.val>> \o b.val, next |-> b.next]

(***************************************************************************)
(* Canonical prefix codes, from <<length, symbol>> pairs                    *)
(***************************************************************************)
(* 2^L-weighted Kraft sum; complete iff equal to 2^L *)
KraftSum(lens, L) == FoldLeft(LAMBDA a, l : a + Pow2(L - l), 0, lens)

(* Wavelet coders: shorter codewords to the left, among the equally long ones
   those of smaller symbols; a lone symbol gets <<0>>.  So the codewords of
   length k are first[k], ..., first[k] + count[k] - 1 (as k-bit numbers), and
   they belong to syms[off[k] + 1], ... *)
(* pairs are in the order of their symbols *)
LeftCodes(pairs, maxLen) ==
  With(Concat([k \in 1..maxLen |-> SelectSeq(pairs, LAMBDA x : x[1] = k)]), LAMBDA s :
  With([k \in 1..maxLen |-> Len(SelectSeq(s, LAMBDA x : x[1] = k))], LAMBDA cnt :
  With(FoldLeft(LAMBDA a, k : << Append(a[1], a[3]), Append(a[2], a[4]),
                                 2 * (a[3] + cnt[k]), a[4] + cnt[k] >>,
                << <<>>, <<>>, 0, 0 >>, [k \in 1..maxLen |-> k]), LAMBDA r :
    [first |-> r[1], count |-> cnt, off |-> r[2],
     syms |-> [i \in 1..Len(s) |-> s[i][2]]])))

(* Is the k-bit number v a codeword?  And whose? *)
IsCode(t, k, v) == k >= 1 /\ k <= Len(t.first)
                   /\ v >= t.first[k] /\ v < t.first[k] + t.count[k]
CodeSym(t, k, v) == t.syms[t.off[k] + v - t.first[k] + 1]

(* <<codeword length, codeword, symbol>> for all the symbols *)
CodeList(t) == Concat([k \in 1..Len(t.first) |->
                  [i \in 1..t.count[k] |-> <<k, t.first[k] + i - 1, t.syms[t.off[k] + i]>>]])

(* Huffman coder: longest codes have the smallest values.  For lengths
   1..maxLen the first code of length k is
   start(k), start(maxLen) = 0, start(k-1) = (start(k) + count(k)) / 2 *)
RECURSIVE RightStart(_, _, _)
RightStart(cnt, k, maxLen) ==
  IF k >= maxLen THEN 0
  ELSE (RightStart(cnt, k + 1, maxLen) + cnt[k + 1]) \div 2
(***************************************************************************)
(* Runs of a byte string, as <<byte, length>>                               *)
(***************************************************************************)
RunsOf(x) ==
  With(FoldLeft(LAMBDA a, c : IF a[1] # <<>> /\ a[1][1] = c THEN << <<c, a[1][2] + 1>>, a[2] >>
                              ELSE << <<c, 1>>, IF a[1] = <<>> THEN a[2] ELSE Append(a[2], a[1]) >>,
                << <<>>, <<>> >>, x), LAMBDA r :
    IF r[1] = <<>> THEN <<>> ELSE Append(r[2], r[1]))

(***************************************************************************)
(* The least total length of a complete prefix code for the frequencies       *)
(* (Huffman): the sum of the weights of the joined nodes                      *)
(***************************************************************************)
Insert(s, w) == SelectSeq(s, LAMBDA v : v <= w) \o <<w>> \o SelectSeq(s, LAMBDA v : v > w)
HuffmanCost(freqs) ==
  IF Len(freqs) = 1 THEN freqs[1]
  ELSE With(FoldLeft(LAMBDA a, f : Insert(a, f), <<>>, freqs), LAMBDA sorted :
       FoldLeft(LAMBDA a, i : LET w == a[1][1] + a[1][2]
                              IN << Insert(SubSeq(a[1], 3, Len(a[1])), w), a[2] + w >>,
                <<sorted, 0>>, [i \in 1..(Len(freqs) - 1) |-> i])[2])

(* Codes of the Huffman coder: lens[c + 1] is the length of the code of c, 0
   for none *)
RightCodes(lens, maxLen) ==
  With([k \in 1..maxLen |-> Len(SelectSeq(lens, LAMBDA x : x = k))], LAMBDA cnt :
  With([k \in 1..maxLen |-> RightStart(cnt, k, maxLen)], LAMBDA start :
    FoldLeft(LAMBDA a, x : IF x = 0 THEN <<Append(a[1], 0), a[2]>>
                           ELSE <<Append(a[1], a[2][x]), [a[2] EXCEPT ![x] = @ + 1]>>,
             << <<>>, Force(start) >>, lens)[1]))
=============================================================================
