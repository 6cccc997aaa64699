----------------------------- MODULE WaveletCode -----------------------------
(***************************************************************************)
(* One section of an archive slice, as coded with the wavelet tree coders  *)
(* ('B' 'b' 'u' 'm' 'M').  A section holds a byte string as its runs.      *)
(*                                                                          *)
(* DecodeSection reads a section the way any conforming decoder has to.     *)
(* EncodeSection writes one, given the codes to be used.                    *)
(***************************************************************************)
EXTENDS Codes, RangeCoder, Models

(***************************************************************************)
(* Coder context threaded through the bits.  For decoding it is            *)
(* <<range decoder state, pm, gapm, gm>>.                                   *)
(***************************************************************************)

(* Splits a sequence by bits: left gets positions with 0-bit *)
Pick(s, bits, b) ==
  LET idx == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : bits[i] = b)
  IN [i \in 1..Len(idx) |-> s[idx[i]]]

(***************************************************************************)
(* Decoding of one node.  acc = <<rc, pm, gapm, prev, bits>>                *)
(* kindOfNode: "root", "both" (both children are symbols), "left" (left     *)
(* child is a symbol), "none".                                              *)
(***************************************************************************)
NodeStep(d, kind, gaps, acc, i) ==
  LET rc == acc[1] pm == acc[2] gm == acc[3] prev == acc[4]
      gap == kind # "root" /\ gaps[i] = 1
  IN
  IF kind = "left" /\ ~gap /\ prev = 0 THEN <<rc, pm, gm, 1, Append(acc[5], 1)>>
  ELSE IF gap THEN
    LET r == DecStep(d, rc, Prob(gm))
    IN << r[2], UpdateState(pm, r[1]), Update(gm, r[1]), r[1], Append(acc[5], r[1])>>
  ELSE
    LET r == DecStep(d, rc, Prob(pm))
    IN << r[2], Update(pm, r[1]), gm, r[1], Append(acc[5], r[1])>>

(* In a node whose children are both symbols the state of the model does not
   follow the bits, which shows only through the state of FSM8 surviving the
   reset. *)
NodeStepBoth(d, gaps, acc, i) ==
  LET prev == acc[4]
  IN IF gaps[i] = 0 THEN <<acc[1], acc[2], acc[3], 1 - prev, Append(acc[5], 1 - prev)>>
     ELSE LET r == DecStep(d, acc[1], Prob(acc[3]))
          IN <<r[2], acc[2], Update(acc[3], r[1]), r[1], Append(acc[5], r[1])>>

DecodeNode(d, kind, gaps, n, rc, pm, gm) ==
  LET idx == [i \in 1..n |-> i]
      start == <<rc, pm, gm, 1, <<>> >>
  IN IF kind = "both"
     THEN FoldLeft(LAMBDA a, i : NodeStepBoth(d, gaps, a, i), start, idx)
     ELSE FoldLeft(LAMBDA a, i : NodeStep(d, kind, gaps, a, i), start, idx)

(* Gap flags for the children: 1 iff the run preceding this one in the node
   went elsewhere or this position comes itself after a gap. *)
GapFlags(kind, gaps, bits) ==
  [i \in 1..Len(bits) |->
     IF i = 1 THEN (IF kind = "root" THEN 1
                    ELSE IF bits[1] # 1 \/ gaps[1] = 1 THEN 1 ELSE 0)
     ELSE IF bits[i] # bits[i-1] \/ (kind # "root" /\ gaps[i] = 1) THEN 1 ELSE 0]

(* t: table of codes.  A node is <<k, v>>: the k-bit number v. *)
NodeKind(t, k, v) ==
  LET l == IsCode(t, k + 1, 2 * v)
      r == IsCode(t, k + 1, 2 * v + 1)
  IN IF k = 0 THEN "root" ELSE IF l /\ r THEN "both" ELSE IF l THEN "left" ELSE "none"

(* Breadth first over the internal nodes.
   q: sequence of [k, v, runs, gaps]; leaves: sequence of [sym, runs] *)
DecodeSymbolsStep(d, t, st) ==      \* st: <<q, cx, leaves>>
    With(Head(st[1]), LAMBDA nd :
    LET q    == st[1]
        cx   == st[2]
        kind == NodeKind(t, nd.k, nd.v)
        pm   == IF kind = "root" THEN cx[2] ELSE Reset(cx[2])
        gm   == IF kind = "root" THEN cx[3] ELSE Reset(cx[3])
    IN With(DecodeNode(d, kind, nd.gaps, Len(nd.runs), cx[1], pm, gm), LAMBDA r :
       With(GapFlags(kind, nd.gaps, r[5]), LAMBDA fl :
       With(Pick(nd.runs, r[5], 0), LAMBDA lr :
       With(Pick(nd.runs, r[5], 1), LAMBDA rr :
       LET lk == nd.k + 1
           lv == 2 * nd.v
           ll == IsCode(t, lk, lv)
           rl == IsCode(t, lk, lv + 1)
           leafs == (IF ll THEN << [sym |-> CodeSym(t, lk, lv), runs |-> lr] >> ELSE <<>>)
                 \o (IF rl THEN << [sym |-> CodeSym(t, lk, lv + 1), runs |-> rr] >> ELSE <<>>)
           nodes == (IF ll \/ lr = <<>> THEN <<>>
                     ELSE << [k |-> lk, v |-> lv, runs |-> lr, gaps |-> Pick(fl, r[5], 0)] >>)
                 \o (IF rl \/ rr = <<>> THEN <<>>
                     ELSE << [k |-> lk, v |-> lv + 1, runs |-> rr, gaps |-> Pick(fl, r[5], 1)] >>)
       IN <<Tail(q) \o nodes, <<r[1], r[2], r[3]>>, st[3] \o leafs>>)))))

(* A tree has at most 256 internal nodes.  <<cx, leaves>>: *)
DecodeSymbols(d, t, q, cx, leaves) ==
  With(FoldLeft(LAMBDA st, i : IF st[1] = <<>> THEN st ELSE DecodeSymbolsStep(d, t, st),
                <<q, cx, leaves>>, [i \in 1..(Len(t.syms) + 1) |-> i]), LAMBDA r : <<r[2], r[3]>>)

(***************************************************************************)
(* Run lengths.  A codeword is either a word of the integer code with a     *)
(* nonzero symbol, or the word of symbol 0 (escape) followed by the fixed   *)
(* code: B ones, a zero, W + B bits.                                        *)
(***************************************************************************)
(* A word read so far: [k, v, e].  e = <<-1>> before the escape, after it the
   bits of the fixed code.  Value of the word, or -1 *)
StartWord(t) == IF t = <<>> THEN [k |-> 0, v |-> 0, e |-> <<>>] ELSE [k |-> 0, v |-> 0, e |-> <<-1>>]
NextWord(t, x, bit) ==
  IF x.e # <<-1>> THEN [x EXCEPT !.e = Append(@, bit)]
  ELSE LET k == x.k + 1
           v == 2 * x.v + bit
       IN [k |-> k, v |-> v,
           e |-> IF IsCode(t, k, v) /\ CodeSym(t, k, v) = 0 THEN <<>> ELSE <<-1>>]
IntWord(t, w, x) ==
  IF x.e # <<-1>> THEN FixedValue(x.e, w)
  ELSE IF IsCode(t, x.k, x.v) THEN CodeSym(t, x.k, x.v) ELSE -1

IntBitStep(d, a, i) ==
  LET r == DecStep(d, a[1], Prob(a[2]))
  IN <<r[2], Update(a[2], r[1]), Append(a[3], r[1])>>

(* One level: nodes in order; acc = <<rc, gm, lefts, rights, done>> *)
IntNodeStep(d, icodes, w, acc, nd) ==
  LET v == IntWord(icodes, w, nd.word)
  IN IF v >= 0 \/ nd.word.k > 30 \/ Len(nd.word.e) > 60
     THEN <<acc[1], acc[2], acc[3], acc[4], Append(acc[5], [len |-> v, runs |-> nd.runs])>>
     ELSE With(FoldLeft(LAMBDA a, i : IntBitStep(d, a, i), <<acc[1], acc[2], <<>> >>, nd.runs), LAMBDA r :
          With(Pick(nd.runs, r[3], 0), LAMBDA lr :
          With(Pick(nd.runs, r[3], 1), LAMBDA rr :
             << r[1], r[2],
                IF lr = <<>> THEN acc[3] ELSE Append(acc[3], [word |-> NextWord(icodes, nd.word, 0), runs |-> lr]),
                IF rr = <<>> THEN acc[4] ELSE Append(acc[4], [word |-> NextWord(icodes, nd.word, 1), runs |-> rr]),
                acc[5]>>)))

RECURSIVE DecodeLengths(_, _, _, _, _, _, _)
DecodeLengths(d, icodes, w, nodes, rc, gm, done) ==
  IF nodes = <<>> THEN <<rc, gm, done>>
  ELSE With(FoldLeft(LAMBDA a, nd : IntNodeStep(d, icodes, w, a, nd),
                         <<rc, Reset(gm), <<>>, <<>>, done>>, nodes), LAMBDA r :
       DecodeLengths(d, icodes, w, r[3] \o r[4], r[1], r[2], r[5]))

(* From a sequence of <<run, value>> pairs to the values in the order of runs *)
ByRun(pairs) == FromPairs(Len(pairs), pairs)

(***************************************************************************)
(* Whole section at position pos of d.  models = <<pm, gapm, gm>>.          *)
(* Result: runs (sequence of <<symbol, length>>), the models after the      *)
(* section and the position of the next byte.                               *)
(***************************************************************************)
PrefixLengths(d, k, n, maxLen, hi) ==
  With(Interpolative(d, k, 0, hi, n), LAMBDA syms :
  With(UnaryList(d, syms.next, n), LAMBDA un :
    [pairs |-> [i \in 1..n |-> <<maxLen - un.val[i] + 1, syms.val[i]>>],
     next |-> un.next]))

(* The lengths are those of a complete prefix code (or of a lone symbol) *)
CompleteCode(pairs, maxLen) ==
  /\ maxLen \in 1..28
  /\ \A i \in 1..Len(pairs) : pairs[i][1] \in 1..maxLen
  /\ \/ Len(pairs) = 1 /\ pairs[1][1] = 1
     \/ KraftSum([i \in 1..Len(pairs) |-> pairs[i][1]], maxLen) = Pow2(maxLen)

BadShape(k) == [ok |-> FALSE, pairs |-> <<>>, ipairs |-> <<>>, codes |-> <<>>, icodes |-> <<>>, w |-> 0, next |-> k]

ReadShape(d, k) ==       \* k: bit position
  LET maxSym == BitsAt(d, k, 8)
      n0     == BitsAt(d, k + 8, 8)
      n      == IF n0 = 0 THEN 256 ELSE n0
      ml     == UnpackRev(d, k + 16)
  IN IF ml.val \notin 1..28 \/ n > maxSym + 1 THEN BadShape(ml.next) ELSE
     With(PrefixLengths(d, ml.next, n, ml.val, maxSym), LAMBDA sy :
     LET lr  == UnpackRev(d, sy.next)
         cnt == UnpackRev(d, lr.next)
         iml == UnpackRev(d, cnt.next)
     IN IF ~CompleteCode(sy.pairs, ml.val) THEN BadShape(sy.next)
        ELSE IF lr.val = 0
        THEN [ok |-> TRUE, pairs |-> sy.pairs, ipairs |-> <<>>,
              codes |-> LeftCodes(sy.pairs, ml.val), icodes |-> <<>>,
              w |-> BitsAt(d, lr.next, 4), next |-> lr.next + 4]
        ELSE IF cnt.val > lr.val + 1 \/ cnt.val > 8 * Len(d) \/ cnt.val = 0 \/ iml.val \notin 1..28
        THEN BadShape(iml.next)
        ELSE With(PrefixLengths(d, iml.next, cnt.val, iml.val, lr.val), LAMBDA iy :
              IF ~CompleteCode(iy.pairs, iml.val) THEN BadShape(iy.next)
              ELSE
              [ok |-> TRUE, pairs |-> sy.pairs, ipairs |-> iy.pairs,
               codes |-> LeftCodes(sy.pairs, ml.val), icodes |-> LeftCodes(iy.pairs, iml.val),
               w |-> BitsAt(d, iy.next, 4), next |-> iy.next + 4]))

(* size: number of bytes in the section *)
DecodeSection(d, pos, models, size) ==
  LET nr  == Unpack(d, pos)
      all == [i \in 1..nr.val |-> i]
  IN With(ReadShape(d, 8 * (nr.next - 1)), LAMBDA sh :
     IF ~sh.ok \/ nr.val \notin 1..size
     THEN [ok |-> FALSE, runs |-> <<>>, pairs |-> <<>>, ipairs |-> <<>>, models |-> models, next |-> pos + 1]
     ELSE
     With(DecodeSymbols(d, sh.codes,
                << [k |-> 0, v |-> 0, runs |-> all, gaps |-> <<>>] >>,
                << DecInit(d, ((sh.next + 7) \div 8) + 1), models[1], models[2] >>, <<>>), LAMBDA s :
     LET leaves == s[2]
     IN With(DecodeLengths(d, sh.icodes, sh.w,
                [i \in 1..Len(leaves) |-> [word |-> StartWord(sh.icodes), runs |-> leaves[i].runs]],
                s[1][1], models[3], <<>>), LAMBDA l :
        With(<< ByRun(Concat([i \in 1..Len(leaves) |->
                   [j \in 1..Len(leaves[i].runs) |-> <<leaves[i].runs[j], leaves[i].sym>>]])),
                ByRun(Concat([i \in 1..Len(l[3]) |->
                   [j \in 1..Len(l[3][i].runs) |-> <<l[3][i].runs[j], l[3][i].len>>]])) >>, LAMBDA sl :
          [ok |-> Len(sl[1]) = nr.val /\ Len(sl[2]) = nr.val,
           runs |-> [i \in 1..nr.val |-> IF i <= Len(sl[1]) /\ i <= Len(sl[2]) THEN <<sl[1][i], sl[2][i]>> ELSE <<0, 0>>],
           pairs |-> sh.pairs, ipairs |-> sh.ipairs,
           models |-> <<Reset(s[1][2]), Reset(s[1][3]), Reset(l[2])>>,
           next |-> l[1][7]]))))
=============================================================================
