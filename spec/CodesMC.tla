------------------------------- MODULE CodesMC -------------------------------
(***************************************************************************)
(* The codes by themselves, exhaustively in small bounds.  A state is a       *)
(* history of numbers given to the codes; every code has to return them       *)
(* whatever bits follow, and tell where the next code begins.                 *)
(***************************************************************************)
EXTENDS Codes, FiniteSets
CONSTANTS MaxValue, MaxRange, MaxSym, MaxFreq, MaxLeaves

VARIABLE inst        \* <<kind, ...>>
(* in groups, so that several workers have something to do *)
Groups == {"int", "bin", "set", "huff"} \X (0..15)
Instances(g) ==
  CASE g[1] = "int"  -> {<<"int", n, t>> : n \in {i \in 0..MaxValue : i % 16 = g[2]}, t \in 0..3}
    [] g[1] = "bin"  -> {<<"bin", lo, r, v, t>> : lo \in {0, 3}, r \in {i \in 1..MaxRange : i % 16 = g[2]},
                                                  v \in 0..(MaxRange - 1), t \in 0..3}
    [] g[1] = "set"  -> {<<"set", S, hi, t>> : S \in (SUBSET (0..MaxSym)) \ {{}},
                                               hi \in {i \in 0..(MaxSym + 2) : i = g[2]}, t \in {0, 3}}
    [] g[1] = "huff" -> {<<"huff", f>> : f \in UNION {{h \in [1..n -> 1..MaxFreq] : (h[1] + 4 * h[n]) % 16 = g[2]}
                                                      : n \in 1..MaxLeaves}}
Legal(i) == /\ i[1] = "bin" => i[4] < i[3]
            /\ i[1] = "set" => \A s \in i[2] : s <= i[3]
Init == inst \in {<<"group", g>> : g \in Groups}
Next == inst[1] = "group" /\ inst' \in {i \in Instances(inst[2]) : Legal(i)}
Spec == Init /\ [][Next]_inst

(* code followed by a tail of bits: alternating or constant *)
Tails == <<Zeros(12), Ones(12), <<0,1,0,1,0,1,0,1,0,1,0,1>>, <<1,0,1,0,1,0,1,0,1,0,1,0>> >>
(* at bit offset 3 *)
Data(code, t) == BytesOfBits(<<1, 0, 1>> \o code \o Tails[t + 1])
Gives(r, v, code) == r.val = v /\ r.next = 3 + Len(code)

FixedDecode(bits, w) ==      \* fewest bits that make a word
  LET L == CHOOSE k \in 1..Len(bits) : FixedValue(SubSeq(bits, 1, k), w) >= 0
                                       /\ \A j \in 1..(k-1) : FixedValue(SubSeq(bits, 1, j), w) < 0
  IN [val |-> FixedValue(SubSeq(bits, 1, L), w), next |-> L]

AscSeq(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

IntCodes ==
  inst[1] = "int" =>
    LET n == inst[2] t == inst[3] IN
    /\ n > 0 => Gives(Unary(Data(UnaryCode(n), t), 3), n, UnaryCode(n))
    /\ n > 0 => Gives(Gamma(Data(GammaCode(n), t), 3), n, GammaCode(n))
    /\ Gives(UnpackRev(Data(PackRevCode(n), t), 3), n, PackRevCode(n))
    /\ Gives(UnpackBit(Data(PackBitCode(n), t), 3), n, PackBitCode(n))
    /\ LET u == Unpack(PackInt(n) \o <<255, 255>>, 1) IN u.val = n /\ u.next = Len(PackInt(n)) + 1
    /\ n > 0 => \A w \in 0..4 :
         LET c == FixedCode(n, w) r == FixedDecode(c \o Tails[t + 1], w)
         IN r.val = n /\ r.next = Len(c)

BinCodes ==
  inst[1] = "bin" =>
    LET lo == inst[2] hi == inst[2] + inst[3] - 1 v == inst[2] + inst[4] t == inst[5]
    IN /\ Gives(Binary(Data(BinaryCode(v, lo, hi), t), 3, lo, hi), v, BinaryCode(v, lo, hi))
       /\ Len(BinaryCode(v, lo, hi)) \in {LogFloor(inst[3]), LogCeil(inst[3])}

SetCodes ==
  inst[1] = "set" =>
    LET s == AscSeq(inst[2])
        c == InterpolativeCode(s, 0, inst[3])
    IN Gives(Interpolative(Data(c, inst[4]), 3, 0, inst[3], Len(s)), s, c)

(* No complete code is cheaper than what HuffmanCost says, and one costs that *)
LengthSets(n) == {l \in [1..n -> 1..(n - 1)] : KraftSum(l, n) = Pow2(n)}
Cost(f, l) == SumSeq([i \in 1..Len(f) |-> f[i] * l[i]])
HuffmanOptimal ==
  (inst[1] = "huff" /\ Len(inst[2]) > 1) =>
    LET f == inst[2] IN
    /\ \A l \in LengthSets(Len(f)) : Cost(f, l) >= HuffmanCost(f)
    /\ \E l \in LengthSets(Len(f)) : Cost(f, l) = HuffmanCost(f)

(* Both assignments of codewords are prefix codes *)
Prefix(k1, v1, k2, v2) == k1 <= k2 /\ v2 \div Pow2(k2 - k1) = v1
PrefixFree ==
  (inst[1] = "huff" /\ Len(inst[2]) > 1) =>
    LET n == Len(inst[2]) IN
    \A l \in LengthSets(n) :
      LET pairs == [i \in 1..n |-> <<l[i], 10 * i>>]
          mx == Max({l[i] : i \in 1..n})
          cl == CodeList(LeftCodes(pairs, mx))
          rc == RightCodes(l, mx)
      IN /\ Len(cl) = n
         /\ {cl[i][3] : i \in 1..n} = {10 * i : i \in 1..n}
         /\ \A i, j \in 1..n : i # j => /\ ~Prefix(cl[i][1], cl[i][2], cl[j][1], cl[j][2])
                                        /\ ~Prefix(l[i], rc[i], l[j], rc[j])
=============================================================================
