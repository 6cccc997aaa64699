-------------------------------- MODULE Writer --------------------------------
(***************************************************************************)
(* Writes archives: any that the format allows, not only those that the       *)
(* compressor would choose.  What is free in the format is given by a plan:    *)
(*   archive  [coder, blocks]                                                 *)
(*   block    [grammar, slices]                                                *)
(*   slice    [text, starts, sections]                                         *)
(*   section  [size, pairs, ipairs, w]: its number of bytes, complete prefix    *)
(*            code for the bytes, the one for run lengths (with 0, the escape,  *)
(*            or empty) as <<length, symbol>> with ascending symbols, and the   *)
(*            parameter of the fixed code                                      *)
(* A slice may bring the last column of its text (see BwtMC: a column whose     *)
(* inverse walk spells the text is the one).                                    *)
(* Every choice has to be decoded to the same data.                            *)
(***************************************************************************)
EXTENDS Archive

MaxLenOf(pairs) == FoldLeft(LAMBDA a, p : Max2(a, p[1]), 0, pairs)
SymsOf(pairs) == [i \in 1..Len(pairs) |-> pairs[i][2]]
LengthCodes(pairs) ==
  With(MaxLenOf(pairs), LAMBDA m : Concat([i \in 1..Len(pairs) |-> UnaryCode(m - pairs[i][1] + 1)]))

(* symbol -> bits of its codeword *)
WordsOf(pairs) ==
  With(CodeList(LeftCodes(pairs, MaxLenOf(pairs))), LAMBDA l :
  With([s \in {l[i][3] : i \in 1..Len(l)} |->
          LET i == CHOOSE k \in 1..Len(l) : l[k][3] = s IN BitsOf(l[i][2], l[i][1])], LAMBDA f : f))

(***************************************************************************)
(* Wavelet tree coders                                                        *)
(***************************************************************************)
ShapeBits(s) ==
  With(SymsOf(s.pairs), LAMBDA syms :
  With(SymsOf(s.ipairs), LAMBDA ints :
    LET n == Len(syms)
        top == IF ints = <<>> THEN 0 ELSE ints[Len(ints)]
    IN BitsOf(syms[n], 8) \o BitsOf(n % 256, 8) \o PackRevCode(MaxLenOf(s.pairs))
       \o InterpolativeCode(syms, 0, syms[n]) \o LengthCodes(s.pairs)
       \o PackRevCode(top)
       \o (IF top = 0 THEN <<>>
           ELSE PackRevCode(Len(ints)) \o PackRevCode(MaxLenOf(s.ipairs))
                \o InterpolativeCode(ints, 0, top) \o LengthCodes(s.ipairs))
       \o BitsOf(s.w, 4)))

(* acc: <<encoder, pm, gapm, prev>>; the cases are those of the decoder *)
WriteBit(kind, gaps, bits, acc, i) ==
  LET gap == kind # "root" /\ gaps[i] = 1
      b == bits[i]
  IN CASE kind = "both" /\ ~gap -> <<acc[1], acc[2], acc[3], b>>
       [] kind = "both" -> <<EncStep(acc[1], b, Prob(acc[3])), acc[2], Update(acc[3], b), b>>
       [] kind = "left" /\ ~gap /\ acc[4] = 0 -> <<acc[1], acc[2], acc[3], 1>>
       [] gap -> <<EncStep(acc[1], b, Prob(acc[3])), UpdateState(acc[2], b), Update(acc[3], b), b>>
       [] OTHER -> <<EncStep(acc[1], b, Prob(acc[2])), Update(acc[2], b), acc[3], b>>

(* st: <<queue of [k, v, runs, gaps], <<encoder, pm, gapm>>, leaves>> *)
WriteNode(t, words, runs, st) ==
  With(Head(st[1]), LAMBDA nd :
  With([i \in 1..Len(nd.runs) |-> words[runs[nd.runs[i]][1]][nd.k + 1]], LAMBDA bits :
  LET cx   == st[2]
      kind == NodeKind(t, nd.k, nd.v)
      pm   == IF kind = "root" THEN cx[2] ELSE Reset(cx[2])
      gm   == IF kind = "root" THEN cx[3] ELSE Reset(cx[3])
  IN With(FoldLeft(LAMBDA a, i : WriteBit(kind, nd.gaps, bits, a, i), <<cx[1], pm, gm, 1>>,
                   [i \in 1..Len(bits) |-> i]), LAMBDA r :
     With(GapFlags(kind, nd.gaps, bits), LAMBDA fl :
     With(Pick(nd.runs, bits, 0), LAMBDA lr :
     With(Pick(nd.runs, bits, 1), LAMBDA rr :
     LET lk == nd.k + 1
         lv == 2 * nd.v
         ll == IsCode(t, lk, lv)
         rl == IsCode(t, lk, lv + 1)
     IN << Tail(st[1])
             \o (IF ll \/ lr = <<>> THEN <<>> ELSE << [k |-> lk, v |-> lv, runs |-> lr, gaps |-> Pick(fl, bits, 0)] >>)
             \o (IF rl \/ rr = <<>> THEN <<>> ELSE << [k |-> lk, v |-> lv + 1, runs |-> rr, gaps |-> Pick(fl, bits, 1)] >>),
           <<r[1], r[2], r[3]>>,
           st[3] \o (IF ll THEN <<lr>> ELSE <<>>) \o (IF rl THEN <<rr>> ELSE <<>>) >>))))))

(* The word of a run length *)
LengthWord(iwords, w, n) ==
  IF n \in DOMAIN iwords THEN iwords[n]
  ELSE (IF DOMAIN iwords = {} THEN <<>> ELSE iwords[0]) \o FixedCode(n, w)

(* One level; nodes are sequences of runs that agree on the bits so far.
   acc: <<encoder, gm, lefts, rights>> *)
WriteLengthNode(words, k, acc, nd) ==
  IF nd = <<>> \/ Len(words[nd[1]]) = k THEN acc
  ELSE With([i \in 1..Len(nd) |-> words[nd[i]][k + 1]], LAMBDA bits :
       With(FoldLeft(LAMBDA a, b : <<EncStep(a[1], b, Prob(a[2])), Update(a[2], b)>>, <<acc[1], acc[2]>>, bits), LAMBDA r :
         <<r[1], r[2], Append(acc[3], Pick(nd, bits, 0)), Append(acc[4], Pick(nd, bits, 1))>>))
RECURSIVE WriteLengths(_, _, _, _, _)
WriteLengths(words, k, nodes, enc, gm) ==
  IF nodes = <<>> THEN <<enc, gm>>
  ELSE With(FoldLeft(LAMBDA a, nd : WriteLengthNode(words, k, a, nd), <<enc, Reset(gm), <<>>, <<>> >>, nodes), LAMBDA r :
       WriteLengths(words, k + 1, SelectSeq(r[3] \o r[4], LAMBDA x : x # <<>>), r[1], r[2]))

(* <<bytes, models>> *)
WaveletSection(x, s, models) ==
  With(RunsOf(x), LAMBDA runs :
  With(WordsOf(s.pairs), LAMBDA words :
  With(IF s.ipairs = <<>> THEN [n \in {} |-> <<>>] ELSE WordsOf(s.ipairs), LAMBDA iw :
  With(LeftCodes(s.pairs, MaxLenOf(s.pairs)), LAMBDA t :
  With(FoldLeft(LAMBDA st, i : IF st[1] = <<>> THEN st ELSE WriteNode(t, words, runs, st),
                << << [k |-> 0, v |-> 0, runs |-> [i \in 1..Len(runs) |-> i], gaps |-> <<>>] >>,
                   <<EncInit, models[1], models[2]>>, <<>> >>,
                [i \in 1..(Len(s.pairs) + 1) |-> i]), LAMBDA tr :
  With(WriteLengths([i \in 1..Len(runs) |-> LengthWord(iw, s.w, runs[i][2])], 0, tr[3], tr[2][1], models[3]), LAMBDA l :
    << PackInt(Len(runs)) \o BytesOfBits(ShapeBits(s)) \o EncFinish(l[1]),
       <<Reset(tr[2][2]), Reset(tr[2][3]), Reset(l[2])>> >>))))))

(***************************************************************************)
(* Huffman coder                                                              *)
(***************************************************************************)
HuffmanSection(x, s) ==
  With(RunsOf(x), LAMBDA runs :
  With(SymsOf(s.pairs), LAMBDA syms :
  With(FoldLeft(LAMBDA a, p : [a EXCEPT ![p[2] + 1] = p[1]], Force(Zeros(256)), s.pairs), LAMBDA lens :
  With(RightCodes(lens, MaxLenOf(s.pairs)), LAMBDA codes :
    LET n == Len(syms)
    IN PackInt(Len(runs))
       \o BytesOfBits(BitsOf(syms[n], 8) \o BitsOf(n % 256, 8) \o PackBitCode(MaxLenOf(s.pairs))
                      \o InterpolativeCode(syms, 0, syms[n]) \o LengthCodes(s.pairs))
       \o BytesOfBits(Concat([i \in 1..Len(runs) |-> BitsOf(codes[runs[i][1] + 1], lens[runs[i][1] + 1])]))
       \o BytesOfBits(Concat([i \in 1..Len(runs) |-> GammaCode(runs[i][2])]))))))

(***************************************************************************)
(* Slices, blocks, archives.  acc: <<bytes, models>>                          *)
(***************************************************************************)
Bits31(rows) == Concat([i \in 1..Len(rows) |-> BitsOf(rows[i], 31)])
Length48(n) == <<0, 0, n \div Pow2(24), (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

WriteSlice(coder, acc, sl) ==
  With(IF "col" \in DOMAIN sl THEN sl.col ELSE LastColumn(sl.text), LAMBDA col :
  With(Stored(col), LAMBDA stored :
  With(FoldLeft(LAMBDA a, s :           \* a: <<position, bytes, models>>
          With(SubSeq(stored, a[1] + 1, a[1] + s.size), LAMBDA x :
          IF s.size = 0 THEN a
          ELSE IF coder = "H" THEN <<a[1] + s.size, a[2] \o HuffmanSection(x, s), a[3]>>
          ELSE With(WaveletSection(x, s, a[3]), LAMBDA r : <<a[1] + s.size, a[2] \o r[1], r[2]>>)),
          <<0, <<>>, acc[2]>>, sl.sections), LAMBDA d :
  With(<<sl.starts - 1>> \o BytesOfBits(Bits31(StartRows(col, sl.starts)))
       \o <<Len(sl.sections) % 256>> \o Concat([i \in 1..Len(sl.sections) |-> PackInt(sl.sections[i].size)])
       \o d[2], LAMBDA body :
    << acc[1] \o Length48(Len(body)) \o body, d[3] >>))))

TextOf(b) == Concat([i \in 1..Len(b.slices) |-> b.slices[i].text])
WriteBlock(coder, acc, b) ==
  With(TextOf(b), LAMBDA text :
    FoldLeft(LAMBDA a, sl : WriteSlice(coder, a, sl),
             << acc[1] \o PackInt(Len(ExpandChecked(b.grammar, text).val)) \o PackInt(Len(b.slices))
                \o WriteGrammar(b.grammar), acc[2] >>,
             b.slices))

CoderByte(c) == CASE c = "H" -> 72 [] c = "b" -> 98 [] c = "u" -> 117 [] c = "m" -> 109 [] c = "M" -> 77 [] OTHER -> 66

WriteArchive(p) ==
  Append(FoldLeft(LAMBDA a, b : WriteBlock(p.coder, a, b), << <<CoderByte(p.coder)>>, InitModels(p.coder) >>, p.blocks)[1], 0)
PlanMeaning(p) ==
  Concat([i \in 1..Len(p.blocks) |->
     ExpandChecked(p.blocks[i].grammar, TextOf(p.blocks[i])).val])

(* What preprocess may write: packed length of the text, grammar, text *)
WritePre(p) ==
  Append(Concat([i \in 1..Len(p.blocks) |->
     LET b == p.blocks[i]
         t == TextOf(b)
     IN PackInt(Len(t)) \o WriteGrammar(b.grammar) \o t]), 0)
=============================================================================
