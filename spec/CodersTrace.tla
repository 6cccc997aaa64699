----------------------------- MODULE CodersTrace -----------------------------
(***************************************************************************)
(* Judges real encoders and decoders: [ev |-> "objects", objs |-> sequence of   *)
(* [enc, starts, bytes, blocks |-> sequence of [in, told, size, rows, back,      *)
(* guard, end]]] and whole runs of the library: [ev |-> "whole", enc, mem,        *)
(* starts, prepr, in, ar, told, got, dtold].                                     *)
(***************************************************************************)
EXTENDS Coders, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

ObjectOK(o) ==
  With(ReadSlices(CoderKind(o.enc), o.bytes, Len(o.blocks)), LAMBDA r :
    /\ r.ok
    /\ r.next = Len(o.bytes) + 1
    /\ \A i \in 1..Len(o.blocks) :
         LET b == o.blocks[i]
         IN /\ r.texts[i] = b.in
            /\ b.told = r.ends[i] - (IF i = 1 THEN 1 ELSE r.ends[i - 1])
            /\ b.end = r.ends[i] - 1
            /\ b.size = Len(b.in)
            /\ b.back = b.in
            /\ b.guard = 1
            /\ Len(b.rows) = NumStarts(Len(b.in), o.starts))

StoredIn(f) == SumSeq([j \in 1..Len(f.slices) |-> SumSeq(f.slices[j].sections)])
WholeOK(e) ==
  /\ Len(e.ar) > 0 /\ e.ar[1] = e.enc
  /\ IsArchiveOf(e.ar, e.in)
  /\ e.told = Len(e.ar)
  /\ e.got = e.in
  /\ e.dtold = Len(e.in)
  /\ With(Frames(e.ar, 2), LAMBDA fs :
       \A i \in 1..(Len(fs) - 1) :
         /\ fs[i].size <= IF e.prepr = 1 THEN (74 * e.mem) \div 100 ELSE (185 * e.mem) \div 1000
         /\ \A j \in 1..Len(fs[i].slices) :
              /\ e.prepr = 1 => SumSeq(fs[i].slices[j].sections) <= (2 * (e.mem - StoredIn(fs[i]))) \div 9
              /\ Len(fs[i].slices[j].rows) = NumStarts(SumSeq(fs[i].slices[j].sections), e.starts))

Judge(e) == CASE e.ev = "objects" -> \A k \in 1..Len(e.objs) : ObjectOK(e.objs[k])
              [] e.ev = "whole" -> WholeOK(e)
              [] OTHER -> FALSE
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ (Judge(Trace[l]) \/ PrintT(<<"REJECT", l>>))
  /\ (l = Len(Trace) => PrintT(<<"DONE", l>>))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
