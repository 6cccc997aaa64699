------------------------------- MODULE Archive -------------------------------
(***************************************************************************)
(* The archive: what compress writes and uncompress reads.                  *)
(*                                                                          *)
(*   archive  = coder byte, blocks, 0                                       *)
(*   block    = packed original size (>0), packed number of slices,         *)
(*              grammar, slices                                             *)
(*   slice    = 48-bit length of the rest of the slice, starting points,    *)
(*              number of sections, packed sizes of sections, sections      *)
(***************************************************************************)
EXTENDS WaveletCode, HuffmanCode, Bwt, Grammar

CoderKind(b) ==       \* of the first byte of the archive
  CASE b = 72  -> "H"
    [] b = 98  -> "b"
    [] b = 117 -> "u"
    [] b = 109 -> "m"
    [] b = 77  -> "M"
    [] OTHER   -> "B"

InitModels(coder) ==
  IF coder = "H" THEN <<>>
  ELSE <<InitModel(coder), InitModel("gap"), InitModel("int")>>

(***************************************************************************)
(* Slice header                                                             *)
(***************************************************************************)
SliceHeader(d, pos) ==
  LET hi  == ByteAt(d, pos) + ByteAt(d, pos + 1)
      len == ByteAt(d, pos + 2) * Pow2(24) + ByteAt(d, pos + 3) * 65536
             + ByteAt(d, pos + 4) * 256 + ByteAt(d, pos + 5)
      p1  == pos + 6
      ns  == ByteAt(d, p1) + 1
      rows == [i \in 1..ns |-> BitsAt(d, 8 * p1 + 31 * (i - 1), 31)]
      p2  == p1 + 1 + ((31 * ns + 7) \div 8)
      nc0 == ByteAt(d, p2)
      nc  == IF nc0 = 0 THEN 256 ELSE nc0
      secs == FoldLeft(LAMBDA a, i : LET u == Unpack(d, a[1])
                                     IN <<u.next, Append(a[2], u.val)>>,
                       <<p2 + 1, <<>> >>, [i \in 1..nc |-> i])
  IN [len |-> len, ok |-> hi = 0 /\ len >= 0 /\ p1 + len <= Len(d) + 1, rows |-> rows, sections |-> secs[2],
      data |-> secs[1], next |-> p1 + len]

(***************************************************************************)
(* Framing only: blocks and slices, found by the stored lengths             *)
(***************************************************************************)
RECURSIVE SliceFrames(_, _, _)
SliceFrames(d, pos, n) ==
  IF n = 0 \/ pos > Len(d) THEN <<>>
  ELSE LET h == SliceHeader(d, pos)
       IN <<h>> \o SliceFrames(d, h.next, n - 1)

RECURSIVE Frames(_, _)
Frames(d, pos) ==
  LET sz == Unpack(d, pos)
  IN IF pos > Len(d) THEN <<[size |-> -1, next |-> pos, slices |-> <<>>, grammar |-> EmptyGrammar, ok |-> FALSE]>>
     ELSE IF sz.val = 0 THEN <<[size |-> 0, next |-> sz.next, slices |-> <<>>, grammar |-> EmptyGrammar, ok |-> TRUE]>>
     ELSE LET ns == Unpack(d, sz.next)
              g  == ReadGrammar(d, ns.next)
              sl == SliceFrames(d, g.next, ns.val)
              nx == IF sl = <<>> THEN g.next ELSE sl[Len(sl)].next
          IN <<[size |-> sz.val, next |-> nx, slices |-> sl, grammar |-> g.val,
                ok |-> Len(sl) = ns.val /\ g.ok]>>
             \o (IF Len(sl) = ns.val THEN Frames(d, nx) ELSE <<>>)

(* Framing is right iff the archive ends with an empty block exactly at its
   last byte and all the pieces are sane *)
FramingOK(d) ==
  LET f == Frames(d, 2)
      last == f[Len(f)]
  IN /\ Len(d) >= 2
     /\ \A i \in 1..Len(f) : f[i].ok
     /\ last.size = 0
     /\ last.next = Len(d) + 1
     /\ \A i \in 1..(Len(f) - 1) :
          /\ f[i].slices # <<>>
          /\ \A j \in 1..Len(f[i].slices) :
               LET s == f[i].slices[j]
                   n == SumSeq(s.sections)
               IN /\ s.ok
                  /\ n > 0
                  /\ s.data <= s.next
                  /\ \A r \in 1..Len(s.rows) : s.rows[r] <= n

(***************************************************************************)
(* Decoding                                                                 *)
(***************************************************************************)
ExpandRuns(runs) == Concat([i \in 1..Len(runs) |-> Repeat(runs[i][1], runs[i][2])])

RECURSIVE Sections(_, _, _, _, _, _, _)
Sections(d, coder, pos, sizes, i, models, acc) ==
  IF i > Len(sizes) THEN [next |-> pos, models |-> models, data |-> acc.data, ok |-> acc.ok]
  ELSE IF sizes[i] = 0 THEN Sections(d, coder, pos, sizes, i + 1, models, acc)
  ELSE IF pos > Len(d) THEN [next |-> pos, models |-> models, data |-> acc.data, ok |-> FALSE]
  ELSE
    With(IF coder = "H" THEN HuffSection(d, pos, sizes[i]) ELSE DecodeSection(d, pos, models, sizes[i]), LAMBDA s :
    LET sane == /\ s.ok
                /\ \A k \in 1..Len(s.runs) : s.runs[k][2] \in 1..sizes[i]
                /\ FoldLeft(LAMBDA a, r : IF a > sizes[i] THEN a ELSE a + r[2], 0, s.runs) = sizes[i]
    IN IF ~sane THEN [next |-> s.next, models |-> models, data |-> acc.data, ok |-> FALSE]
       ELSE Sections(d, coder, s.next, sizes, i + 1,
                IF coder = "H" THEN models ELSE s.models,
                [data |-> acc.data \o ExpandRuns(s.runs), ok |-> acc.ok]))

(* One slice: the bytes of the slice of the precompressed block *)
DecodeSlice(d, coder, pos, models) ==
  With(SliceHeader(d, pos), LAMBDA h :
  IF ~h.ok THEN [text |-> <<>>, next |-> pos, models |-> models, ok |-> FALSE] ELSE
  With(Sections(d, coder, h.data, h.sections, 1, models, [data |-> <<>>, ok |-> TRUE]), LAMBDA s :
    IF s.data = <<>> \/ h.rows[1] > Len(s.data)
    THEN [text |-> <<>>, next |-> s.next, models |-> s.models, ok |-> FALSE]
    ELSE
    With(Restore(s.data, h.rows[1]), LAMBDA col :
    With(InverseWalk(col), LAMBDA text :
      [text |-> text, next |-> s.next, models |-> s.models,
       ok |-> /\ h.ok /\ s.ok
              /\ s.next = h.next                       \* the stored length is exact
              /\ \A i \in 1..Len(text) : text[i] # Sentinel  \* single cycle
              /\ h.rows = StartRows(col, Len(h.rows))]))))

RECURSIVE Slices(_, _, _, _, _, _)
Slices(d, coder, pos, n, models, acc) ==
  IF n = 0 \/ ~acc.ok THEN [next |-> pos, models |-> models, text |-> acc.text, ok |-> acc.ok]
  ELSE IF pos > Len(d) THEN [next |-> pos, models |-> models, text |-> acc.text, ok |-> FALSE]
  ELSE With(DecodeSlice(d, coder, pos, models), LAMBDA s :
         Slices(d, coder, s.next, n - 1, s.models,
                [text |-> acc.text \o s.text, ok |-> acc.ok /\ s.ok]))

RECURSIVE Blocks(_, _, _, _, _)
Blocks(d, coder, pos, models, acc) ==
  LET sz == Unpack(d, pos)
      ns == Unpack(d, sz.next)
  IN IF pos > Len(d) THEN [out |-> acc.out, next |-> pos, ok |-> FALSE]
     ELSE IF sz.val = 0 \/ ~acc.ok THEN [out |-> acc.out, next |-> sz.next, ok |-> acc.ok]
     ELSE With(ReadGrammar(d, ns.next), LAMBDA g :
          IF ~g.ok THEN [out |-> acc.out, next |-> g.next, ok |-> FALSE] ELSE
          With(Slices(d, coder, g.next, ns.val, models, [text |-> <<>>, ok |-> TRUE]), LAMBDA s :
          With(ExpandChecked(g.val, s.text), LAMBDA ex :
            Blocks(d, coder, s.next, s.models,
                   [out |-> acc.out \o ex.val,
                    ok |-> acc.ok /\ s.ok /\ g.ok /\ ex.ok /\ Len(ex.val) = sz.val
                          /\ Len(s.text) <= sz.val]))))

Decode(d) ==
  LET coder == CoderKind(ByteAt(d, 1))
  IN Blocks(d, coder, 2, InitModels(coder), [out |-> <<>>, ok |-> TRUE])

(***************************************************************************)
(* For archives of more data than can be expanded here: the runs of the      *)
(* sections of all the slices, neither expanded nor transformed back         *)
(***************************************************************************)
SectionRuns(d, coder, sizes, acc, i) ==       \* acc: [ok, next, models, runs]
  IF ~acc.ok \/ sizes[i] = 0 THEN acc
  ELSE IF acc.next > Len(d) THEN [acc EXCEPT !.ok = FALSE]
  ELSE
    With(IF coder = "H" THEN HuffSection(d, acc.next, sizes[i]) ELSE DecodeSection(d, acc.next, acc.models, sizes[i]), LAMBDA s :
      [ok |-> /\ s.ok
              /\ \A k \in 1..Len(s.runs) : s.runs[k][2] \in 1..sizes[i]
              /\ FoldLeft(LAMBDA a, r : IF a > sizes[i] THEN a ELSE a + r[2], 0, s.runs) = sizes[i],
       next |-> s.next, models |-> IF coder = "H" THEN acc.models ELSE s.models,
       runs |-> acc.runs \o s.runs])
SliceRuns(d, coder, acc, h) ==                \* h: header of the slice
  IF ~acc.ok THEN acc ELSE
  With(FoldLeft(LAMBDA a, i : SectionRuns(d, coder, h.sections, a, i), [acc EXCEPT !.next = h.data],
                [i \in 1..Len(h.sections) |-> i]), LAMBDA r :
    [r EXCEPT !.ok = @ /\ r.next = h.next])
AllRuns(d) ==
  LET coder == CoderKind(ByteAt(d, 1))
  IN With(Frames(d, 2), LAMBDA f :
     FoldLeft(LAMBDA a, h : SliceRuns(d, coder, a, h),
              [ok |-> TRUE, next |-> 2, models |-> InitModels(coder), runs |-> <<>>],
              Concat([i \in 1..Len(f) |-> f[i].slices])))
(* How many of each byte *)
RunCounts(runs) ==
  FoldLeft(LAMBDA a, r : [a EXCEPT ![r[1] + 1] = @ + r[2]], Force(Zeros(256)), runs)

(* d is an archive of exactly x *)
IsArchiveOf(d, x) ==
  With(Decode(d), LAMBDA r : r.ok /\ r.next = Len(d) + 1 /\ r.out = x)

(***************************************************************************)
(* Output of the preprocess tool: packed size, grammar, data ... 0          *)
(***************************************************************************)
RECURSIVE PreBlocks(_, _, _)
PreBlocks(d, pos, acc) ==
  LET sz == Unpack(d, pos)
  IN IF pos > Len(d) THEN [out |-> acc.out, next |-> pos, ok |-> FALSE, sizes |-> acc.sizes]
     ELSE IF sz.val = 0 THEN [out |-> acc.out, next |-> sz.next, ok |-> acc.ok, sizes |-> acc.sizes]
     ELSE With(ReadGrammar(d, sz.next), LAMBDA g :
          IF g.next + sz.val - 1 > Len(d)
          THEN [out |-> acc.out, next |-> pos, ok |-> FALSE, sizes |-> acc.sizes]
          ELSE
          With(ExpandChecked(g.val, SubSeq(d, g.next, g.next + sz.val - 1)), LAMBDA ex :
            PreBlocks(d, g.next + sz.val,
              [out |-> acc.out \o ex.val,
               sizes |-> Append(acc.sizes, <<Len(ex.val), sz.val>>),
               ok |-> acc.ok /\ g.ok /\ ex.ok])))
DecodePre(d) == PreBlocks(d, 1, [out |-> <<>>, sizes |-> <<>>, ok |-> TRUE])
=============================================================================
