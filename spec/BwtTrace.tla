------------------------------ MODULE BwtTrace ------------------------------
(***************************************************************************)
(* Judges transforms done by the real code.                                  *)
(*  fwd: [alg, starts, in, out, rows, freqs, transformed, guard]             *)
(*  inv: [which, stored, rows, out, guard, text]: text is what the inverse    *)
(*       has to be by the specification                                      *)
(*  gen: [text, count]: prints what the specification makes of the text       *)
(***************************************************************************)
EXTENDS Bwt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

(* By definition when the block is short, else by the walk, which is as good *)
IsTransform(x, stored, eob) ==
  IF Len(x) <= 24
  THEN With(LastColumn(x), LAMBDA col : stored = Stored(col) /\ eob = EobRow(col) - 1)
  ELSE eob \in 0..Len(x) /\ Len(stored) = Len(x) /\ InverseBwt(stored, eob) = x

Fwd(e) ==
  /\ e.guard = 1 /\ e.transformed = 1
  /\ Len(e.out) = Len(e.in)
  /\ Len(e.rows) = NumStarts(Len(e.in), e.starts)
  /\ IsTransform(e.in, e.out, e.rows[1])
  /\ e.rows = StartRows(Restore(e.out, e.rows[1]), Len(e.rows))
  /\ (e.freqs # <<>> =>
       With(FoldLeft(LAMBDA a, c : [a EXCEPT ![c + 1] = @ + 1], Force(Zeros(256)), e.in), LAMBDA f : f = e.freqs))

Inv(e) == e.guard = 1 /\ e.out = e.text

Gen(e) ==
  With(LastColumn(e.text), LAMBDA col :
    PrintT(<<"GEN", ToJson([i |-> e.i, stored |-> Stored(col), rows |-> StartRows(col, e.count)])>>))
(* from a transform made by the real code (and judged to be one) *)
GenRows(e) ==
  With(Force(Restore(e.stored, e.eob)), LAMBDA col :
    PrintT(<<"GEN", ToJson([i |-> e.i, rows |-> StartRows(col, e.count)])>>))

Judge(e) ==
  CASE e.ev = "fwd" -> Fwd(e)
    [] e.ev = "inv" -> Inv(e)
    [] e.ev = "gen" -> Gen(e)
    [] e.ev = "genrows" -> GenRows(e)
    [] OTHER -> FALSE

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ (Judge(Trace[l]) \/ PrintT(<<"REJECT", l>>))
  /\ (l = Len(Trace) => PrintT(<<"DONE", l>>))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
