------------------------------ MODULE FreqTrace ------------------------------
(***************************************************************************)
(* Judges a real FrequencyTable: [start, ops], each of ops [o, k, n, keys,     *)
(* freqs, bykey, told]: operation, and what the table told afterwards.          *)
(***************************************************************************)
EXTENDS FreqTable, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

(* keys are bytes; t is indexed from 0 *)
Start(e) == [k \in 0..255 |-> e.start[k + 1]]
Step(a, op) ==
  LET t == CASE op.o = "i" -> Increase(a[1], op.k, op.n)
             [] op.o = "d" -> IF CanDecrease(a[1], op.k, op.n) THEN Decrease(a[1], op.k, op.n) ELSE a[1]
             [] op.o = "r" -> DropKey(a[1], op.k)
             [] OTHER -> a[1]                   \* just constructed, or copied
  IN With(t, LAMBDA u :
     << u, a[2] /\ IsOrder(u, op.keys, op.freqs)
                /\ (op.o = "d" => (op.told = 1) = CanDecrease(a[1], op.k, op.n))
                /\ \A k \in Live(u) : op.bykey[k + 1] = u[k] >>)
Judge(e) == /\ e.ev = "freq"
            /\ With(FoldLeft(LAMBDA a, op : IF a[2] THEN Step(a, op) ELSE a, <<Start(e), TRUE>>, e.ops), LAMBDA r : r[2])
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ (Judge(Trace[l]) \/ PrintT(<<"REJECT", l>>))
  /\ (l = Len(Trace) => PrintT(<<"DONE", l>>))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
