---------------------------- MODULE PipelineTrace ----------------------------
(***************************************************************************)
(* Checks recorded runs of the real tools against Pipeline.  Records:        *)
(*   [ev |-> "begin"]                    a new, independent history          *)
(*   [ev |-> "compress", in, opt, out, rc]            etc.                   *)
(***************************************************************************)
EXTENDS Pipeline, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Clear == /\ arc' = Empty /\ made' = Empty /\ pre' = Empty /\ premade' = Empty
         /\ cut' = {} /\ size' = Empty

Event(e) ==
  \/ e.ev = "begin"       /\ Clear
  \/ e.ev = "compress"    /\ Compress(e.in, e.opt, e.out, e.rc)
  \/ e.ev = "uncompress"  /\ Uncompress(e.in, e.out, e.rc)
  \/ e.ev = "preprocess"  /\ Preprocess(e.in, e.opt, e.out, e.rc)
  \/ e.ev = "postprocess" /\ Postprocess(e.in, e.out, e.rc)
  \/ e.ev = "cut"         /\ Cut(e.in, e.out)
  \/ e.ev = "refuse"      /\ UncompressCut(e.in, e.rc)
  \/ e.ev = "fault"       /\ FaultyRun(e.rc)
  \/ e.ev = "compress?"   /\ CompressUnderFault(e.in, e.opt, e.out, e.rc)
  \/ e.ev = "uncompress?" /\ UncompressUnderFault(e.in, e.out, e.rc)
  \/ e.ev = "preprocess?" /\ PreprocessUnderFault(e.in, e.opt, e.out, e.rc)
  \/ e.ev = "postprocess?" /\ PostprocessUnderFault(e.in, e.out, e.rc)
  \/ e.ev = "compress!"   /\ CompressStarved(e.in, e.opt, e.out, e.rc)
  \/ e.ev = "uncompress!" /\ UncompressStarved(e.in, e.out, e.rc)
  \/ e.ev = "preprocess!" /\ PreprocessStarved(e.in, e.opt, e.out, e.rc)
  \/ e.ev = "postprocess!" /\ PostprocessStarved(e.in, e.out, e.rc)
  \/ e.ev = "reported"    /\ Reported(e.told, e.actual)

TraceInit == Init /\ l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ IF ENABLED Event(Trace[l]) THEN Event(Trace[l])
     ELSE PrintT(<<"REJECT", l>>) /\ UNCHANGED vars
  /\ (l = Len(Trace) => PrintT(<<"DONE", l>>))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
=============================================================================
