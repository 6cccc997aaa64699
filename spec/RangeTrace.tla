----------------------------- MODULE RangeTrace -----------------------------
(***************************************************************************)
(* Judges what the real BitEncoder and BitDecoder did.                      *)
(*  code: [seqs, bytes, counters, bits, consumed]: one encoder and one       *)
(*        decoder given the sequences one after another; counters are those   *)
(*        of the encoder after each finish, consumed the bytes the decoder     *)
(*        has read                                                           *)
(*  read: [data, probs, bits, consumed]: decoder given arbitrary data         *)
(***************************************************************************)
EXTENDS RangeCoder, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Code(e) ==
  With([i \in 1..Len(e.seqs) |-> Encode(e.seqs[i])], LAMBDA by :
  LET ends == [i \in 1..Len(by) |-> SumSeq([j \in 1..i |-> Len(by[j])])]
  IN /\ e.bytes = Concat(by)
     /\ e.counters = ends
     /\ e.consumed = ends
     /\ e.bits = [i \in 1..Len(e.seqs) |-> [j \in 1..Len(e.seqs[i]) |-> e.seqs[i][j][1]]])

Read(e) ==
  With(FoldLeft(LAMBDA c, p : With(DecStep(e.data, c[1], p), LAMBDA r : <<r[2], Append(c[2], r[1])>>),
                <<DecInit(e.data, 1), <<>> >>, e.probs), LAMBDA r :
    r[2] = e.bits /\ r[1][7] - 1 = e.consumed)

Judge(e) == CASE e.ev = "code" -> Code(e)
              [] e.ev = "read" -> Read(e)
              [] OTHER -> FALSE

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ (Judge(Trace[l]) \/ PrintT(<<"REJECT", l>>))
  /\ (l = Len(Trace) => PrintT(<<"DONE", l>>))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
