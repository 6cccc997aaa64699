----------------------------- MODULE MeaningTrace -----------------------------
(***************************************************************************)
(* Judges the real decoders on given archives: [ar |-> bytes, pre |-> 1 for     *)
(* output of preprocess, got |-> what the decoder wrote, rc].  Archives decode   *)
(* to their meaning.                                                           *)
(***************************************************************************)
EXTENDS Archive, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Judge(e) ==
  With(IF e.pre = 1 THEN DecodePre(e.ar) ELSE Decode(e.ar), LAMBDA r :
    r.ok /\ r.next = Len(e.ar) + 1 /\ e.rc = 0 /\ e.got = r.out)

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ (Judge(Trace[l]) \/ PrintT(<<"REJECT", l>>))
  /\ (l = Len(Trace) => PrintT(<<"DONE", l>>))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
