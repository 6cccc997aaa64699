----------------------------- MODULE ModelsTrace -----------------------------
(***************************************************************************)
(* Judges what real probability models told.  A record is                     *)
(*   [kind, ops, probs]: ops is a sequence of 0/1 (update), 2/3 (updateState    *)
(*   with 0/1), 4 (reset); probs[i] is the probability of one told before the    *)
(*   i:th operation and the last one that after all of them.                    *)
(***************************************************************************)
EXTENDS Models, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Apply(m, op) == CASE op = 0 -> Update(m, 0) [] op = 1 -> Update(m, 1)
                  [] op = 2 -> UpdateState(m, 0) [] op = 3 -> UpdateState(m, 1)
                  [] OTHER -> Reset(m)

(* <<model, all right so far>> *)
Judge(e) ==
  /\ e.ev = "model"
  /\ Len(e.probs) = Len(e.ops) + 1
  /\ \A i \in 1..Len(e.probs) : e.probs[i] > 0 /\ e.probs[i] < Scale
  /\ With(FoldLeft(LAMBDA a, i :
                IF ~a[2] THEN a
                ELSE With(Apply(a[1], e.ops[i]), LAMBDA m : <<m, Prob(m) = e.probs[i + 1]>>),
              <<InitModel(e.kind), Prob(InitModel(e.kind)) = e.probs[1]>>, [i \in 1..Len(e.ops) |-> i]),
          LAMBDA r : r[2])

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ (Judge(Trace[l]) \/ PrintT(<<"REJECT", l>>))
  /\ (l = Len(Trace) => PrintT(<<"DONE", l>>))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
