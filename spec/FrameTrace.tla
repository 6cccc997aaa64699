----------------------------- MODULE FrameTrace -----------------------------
(***************************************************************************)
(* How compress divides its input, seen from the framing of the archive.    *)
(* Records: [ar |-> archive, n |-> bytes in the input, mem |-> megabytes,    *)
(* prepr |-> BOOLEAN, starts |-> starting points asked for, told |-> size    *)
(* told to the user]                                                        *)
(***************************************************************************)
EXTENDS Archive, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

(* Limits in bytes; mem <= 1000 *)
BlockLimit(mem, prepr) == IF prepr THEN 740000 * mem ELSE 185000 * mem
(* (mem - stored size of the block) / 4.5 *)
SliceLimit(mem, prepr, stored) ==
  IF prepr THEN (2 * (1000000 * mem - stored)) \div 9 ELSE 185000 * mem

SliceSize(s) == SumSeq(s.sections)
StoredSize(b) == SumSeq([j \in 1..Len(b.slices) |-> SliceSize(b.slices[j])])

(* The blocks cover the input in order: all full but the last one *)
Partition(sizes, n, limit) ==
  /\ SumSeq(sizes) = n
  /\ \A i \in 1..Len(sizes) : sizes[i] > 0 /\ sizes[i] <= limit
  /\ \A i \in 1..(Len(sizes) - 1) : sizes[i] = limit

BlockOK(b, e) ==
  LET stored == StoredSize(b)
  IN /\ stored <= b.size
     /\ (~e.prepr => stored = b.size /\ b.grammar.rules = <<>>)
     /\ \A j \in 1..Len(b.slices) :
          /\ SliceSize(b.slices[j]) <= SliceLimit(e.mem, e.prepr, stored)
          /\ Len(b.slices[j].rows) = NumStarts(SliceSize(b.slices[j]), e.starts)

FrameJudge(e) ==
  /\ FramingOK(e.ar)
  /\ With(Frames(e.ar, 2), LAMBDA f :
       LET bs == SubSeq(f, 1, Len(f) - 1)
       IN /\ Partition([i \in 1..Len(bs) |-> bs[i].size], e.n, BlockLimit(e.mem, e.prepr))
          /\ \A i \in 1..Len(bs) : BlockOK(bs[i], e))

(* [pre |-> output of preprocess, n, max, blocks, total |-> as told] *)
RECURSIVE PreSizes(_, _)
PreSizes(d, pos) ==
  LET sz == Unpack(d, pos)
  IN IF pos > Len(d) \/ sz.val = 0 THEN <<>>
     ELSE LET g == ReadGrammar(d, sz.next)
          IN <<sz.val>> \o PreSizes(d, g.next + sz.val)

Ceil(a, b) == (a + b - 1) \div b
Judge(e) ==
  CASE e.ev = "frame" -> FrameJudge(e)
    [] e.ev = "told" ->            \* compress -v
         e.told = e.size
    [] e.ev = "pretold" ->         \* preprocess -v
         /\ e.total = e.n
         /\ e.blocks = Ceil(e.n, e.max)
         /\ e.blocks = Len(PreSizes(e.pre, 1))
    [] e.ev = "counted" ->         \* return value of compress, streams of the library
         e.told = e.size

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ (Judge(Trace[l]) \/ PrintT(<<"REJECT", l>>))
  /\ (l = Len(Trace) => PrintT(<<"DONE", l>>))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
