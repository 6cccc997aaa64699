---------------------------- MODULE BwtRunsTrace ----------------------------
(***************************************************************************)
(* Judges transforms of very long blocks [kind, a, b, n, m]:                 *)
(*  fwd: [alg, starts, stored, rows, freqs, guard], stored as runs            *)
(*  inv: [which, back, guard], back as runs of words of 1 or 2 bytes          *)
(*  gen: [count] prints what the inverse is to be given                       *)
(***************************************************************************)
EXTENDS BwtRuns, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

TextRuns(f) ==
  IF f.kind = "alt" THEN << <<f.n, f.a * 256 + f.b>> >>
  ELSE IF f.m = 0 THEN << <<f.n, f.a>> >>
  ELSE << <<f.n, f.a>>, <<f.m, f.b>> >>

Form(e) == [kind |-> e.kind, a |-> e.a, b |-> e.b, n |-> e.n, m |-> e.m]

Fwd(e) ==
  LET f == Form(e) IN
  /\ e.guard = 1
  /\ e.stored = StoredRuns(f)
  /\ e.rows = Rows(f, NumStarts(Size(f), e.starts))
  /\ \A c \in 0..255 : e.freqs[c + 1] = (IF c = e.a THEN f.n ELSE 0) + (IF c = e.b THEN f.m ELSE 0)

Inv(e) == e.guard = 1 /\ e.back = TextRuns(Form(e))

Gen(e) == PrintT(<<"GEN", ToJson([i |-> e.i, stored |-> StoredRuns(Form(e)), rows |-> Rows(Form(e), e.count)])>>)

Judge(e) ==
  CASE e.ev = "fwd" -> Fwd(e)
    [] e.ev = "inv" -> Inv(e)
    [] e.ev = "gen" -> Gen(e)
    [] OTHER -> FALSE

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ (Judge(Trace[l]) \/ PrintT(<<"REJECT", l>>))
  /\ (l = Len(Trace) => PrintT(<<"DONE", l>>))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
