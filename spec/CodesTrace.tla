----------------------------- MODULE CodesTrace -----------------------------
(***************************************************************************)
(* Judges what the real integer and prefix codes did.                        *)
(*  pack: [groups, bytes, written, direct, unpacked, undirect, used]:           *)
(*        a number as its 7-bit groups, least significant first; what            *)
(*        packInteger, writePackedInteger and packAndWriteInteger made of it     *)
(*        and what the readers made of that (-1 <<>>: not done)                 *)
(*  int:  [code, n, a, b, bits, back, used]: one number with one code             *)
(*  set:  [s, lo, hi, bits, back, used, told]: interpolative code                  *)
(*  huff: [freqs, pairs]: <<length, symbol>> for the frequencies                    *)
(*  code: [lens, codes]: codewords of the Huffman coder                             *)
(*  runs: [x, given, freqs, lens, freqs2, total, freqs3, syms, runlens]: x, or given    *)
(*        as <<symbol, length>> of its runs                                            *)
(*  log:  [n, floor, ceil, msb]                                                    *)
(***************************************************************************)
EXTENDS Codes, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

GroupBytes(g) == [i \in 1..Len(g) |-> IF i < Len(g) THEN 128 + g[i] ELSE g[i]]
Pack(e) ==
  With(GroupBytes(e.groups), LAMBDA b :
  /\ e.bytes = b                    \* packInteger
  /\ e.written = b                  \* writePackedInteger of it
  /\ e.direct \in {b, <<-1>>}       \* packAndWriteInteger
  /\ e.unpacked = e.groups          \* unpackInteger
  /\ e.undirect \in {e.groups, <<-1>>}    \* readAndUnpackInteger
  /\ e.used = Len(b)
  /\ e.rev = e.groups /\ e.plain = e.groups     \* from bits, followed by others
  /\ e.revused = Len(b) /\ e.plainused = Len(b)
  /\ e.revbits = Concat([i \in 1..Len(b) |-> RevBits(b[i])]))

CodeFor(e) ==
  CASE e.code = "unary"  -> UnaryCode(e.n)
    [] e.code = "fixed"  -> FixedCode(e.n, e.a)
    [] e.code = "flat"   -> FixedCode(e.n, 0)
    [] e.code = "binary" -> BinaryCode(e.n, e.a, e.b)
    [] e.code = "bits"   -> BitsOf(e.n, e.a)
    [] e.code = "rbits"  -> [i \in 1..e.a |-> (e.n \div Pow2(i - 1)) % 2]
OneNumber(e) ==
  With(CodeFor(e), LAMBDA c :
  /\ e.bits = c
  /\ e.back \in {e.n, -1}
  /\ e.back # -1 => e.used = Len(c)
  /\ e.told \in {Len(c), -1})

Set(e) ==
  With(InterpolativeCode(e.s, e.lo, e.hi), LAMBDA c :
  /\ e.bits = c
  /\ e.back = e.s
  /\ e.used = Len(c) /\ e.told = Len(c))

(* freqs: sequence of <<frequency, symbol>>, frequencies positive *)
Huff(e) ==
  LET n == Len(e.freqs)
      FreqOf(s) == LET i == CHOOSE k \in 1..n : e.freqs[k][2] = s IN e.freqs[i][1]
      lens == [i \in 1..Len(e.pairs) |-> e.pairs[i][1]]
      mx == FoldLeft(Max2, 0, lens)
  IN /\ Len(e.pairs) = n
     /\ {e.pairs[i][2] : i \in 1..n} = {e.freqs[i][2] : i \in 1..n}
     /\ \A i \in 1..n : lens[i] >= 1 /\ lens[i] <= 28
     /\ IF n = 1 THEN lens[1] = 1
        ELSE /\ KraftSum(lens, mx) = Pow2(mx)
             /\ SumSeq([i \in 1..n |-> lens[i] * FreqOf(e.pairs[i][2])])
                = HuffmanCost([i \in 1..n |-> e.freqs[i][1]])

Code(e) ==
  With(FoldLeft(Max2, 0, e.lens), LAMBDA mx : e.codes = RightCodes(e.lens, mx))

Count(s, v) == Len(SelectSeq(s, LAMBDA x : x = v))
Runs(e) ==
  With(IF Len(e.given) > 0 THEN e.given ELSE RunsOf(e.x), LAMBDA r :
  With([i \in 1..Len(r) |-> r[i][1]], LAMBDA syms :
  With([i \in 1..Len(r) |-> r[i][2]], LAMBDA lens :
  With(FoldLeft(LAMBDA a, c : [a EXCEPT ![c + 1] = @ + 1], Force(Zeros(256)), syms), LAMBDA f :
  /\ e.freqs = f /\ e.freqs2 = f /\ e.freqs3 = f
  /\ e.total = Len(r)
  /\ e.syms = syms /\ e.runlens = lens
  /\ \A i \in 1..Len(e.lens) : e.lens[i][2] = Count(lens, e.lens[i][1])
  /\ SumSeq([i \in 1..Len(e.lens) |-> e.lens[i][2]]) = Len(r)
  /\ Cardinality({e.lens[i][1] : i \in 1..Len(e.lens)}) = Len(e.lens)))))

Log(e) == /\ "differ" \notin DOMAIN e
          /\ e.floor = LogFloor(e.n) /\ e.ceil = LogCeil(e.n)
          /\ e.msb = Pow2(LogFloor(e.n))
          /\ e.n < 65536 => e.msb16 = Pow2(LogFloor(e.n))

Judge(e) == CASE e.ev = "pack" -> Pack(e)
              [] e.ev = "int" -> OneNumber(e)
              [] e.ev = "set" -> Set(e)
              [] e.ev = "huff" -> Huff(e)
              [] e.ev = "code" -> Code(e)
              [] e.ev = "runs" -> Runs(e)
              [] e.ev = "log" -> Log(e)
              [] OTHER -> FALSE

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ (Judge(Trace[l]) \/ PrintT(<<"REJECT", l>>))
  /\ (l = Len(Trace) => PrintT(<<"DONE", l>>))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
