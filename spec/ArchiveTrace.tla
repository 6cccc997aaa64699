---------------------------- MODULE ArchiveTrace ----------------------------
(***************************************************************************)
(* Judges archives written by the real compressor with the decoder of        *)
(* Archive: [enc |-> code of the coder asked for, in |-> bytes, ar |-> bytes] *)
(* and outputs of preprocess: [pre |-> bytes, in |-> bytes, max |-> block     *)
(* size]: every block but the last one is of the size asked for, and none     *)
(* becomes longer than it was.  [whole |-> bytes, kind]: no strict prefix of   *)
(* the archive (or output of preprocess) is one.                              *)
(* [counts |-> how many of each byte, enc, ar]: large input, not preprocessed:  *)
(* the runs in the archive are runs of these.                                   *)
(***************************************************************************)
EXTENDS Archive, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Whole(kind, d) ==
  With(IF kind = "pre" THEN DecodePre(d) ELSE Decode(d), LAMBDA r : r.ok /\ r.next = Len(d) + 1)

Judge(e) ==
  IF "whole" \in DOMAIN e
  THEN /\ Whole(e.kind, e.whole)
       /\ \A k \in 0..(Len(e.whole) - 1) : ~Whole(e.kind, SubSeq(e.whole, 1, k))
  ELSE
  IF "counts" \in DOMAIN e
  THEN /\ Len(e.ar) > 0 /\ e.ar[1] = e.enc
       /\ FramingOK(e.ar)
       /\ With(AllRuns(e.ar), LAMBDA r : r.ok /\ RunCounts(r.runs) = e.counts)
  ELSE
  IF "pre" \in DOMAIN e
  THEN With(DecodePre(e.pre), LAMBDA r :
         /\ r.ok /\ r.next = Len(e.pre) + 1 /\ r.out = e.in
         /\ \A i \in 1..Len(r.sizes) :
              /\ r.sizes[i][2] <= r.sizes[i][1]
              /\ r.sizes[i][1] <= e.max
              /\ (i < Len(r.sizes) => r.sizes[i][1] = e.max))
  ELSE /\ Len(e.ar) > 0 /\ e.ar[1] = e.enc
       /\ IsArchiveOf(e.ar, e.in)

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ (Judge(Trace[l]) \/ PrintT(<<"REJECT", l>>))
  /\ (l = Len(Trace) => PrintT(<<"DONE", l>>))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
