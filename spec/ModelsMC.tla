------------------------------ MODULE ModelsMC ------------------------------
(***************************************************************************)
(* A probability model as a state machine: bits are coded (Update), passed    *)
(* by (UpdateState) and contexts change (Reset).                             *)
(*  - A probability is never 0 or 1: a bit of either value can be coded at     *)
(*    less than 12 bits.                                                       *)
(*  - Two models given the same calls are in the same state (they are values), *)
(*    and after a reset the memory is what it was in the beginning.            *)
(*  - Probabilities go the right way: a bit never gets less likely in its       *)
(*    state by being seen.                                                    *)
(* Runs exhausts all the states reachable for the predictors alone (they are   *)
(* finite: a predictor has at most 4096 values); the models built from several  *)
(* of them are explored to MaxSteps.                                          *)
(***************************************************************************)
EXTENDS Models
CONSTANTS Kinds, MaxSteps

VARIABLES m, n, old, last
vars == <<m, n, old, last>>

Init == \E k \in Kinds : m = InitModel(k) /\ n = 0 /\ old = InitModel(k) /\ last = <<"new", 0>>
Step(x, what, bit) == m' = x /\ n' = n + 1 /\ old' = m /\ last' = <<what, bit>>
Next == /\ n < MaxSteps
        /\ \/ \E b \in Bit : Step(Update(m, b), "update", b)
           \/ \E b \in Bit : Step(UpdateState(m, b), "state", b)
           \/ Step(Reset(m), "reset", 0)
Spec == Init /\ [][Next]_vars

Possible == Prob(m) \in 1..(Scale - 1)
InStates == m[2] \in 0..(CASE m[1] = "m" -> 255 [] m[1] = "M" -> 65535 [] OTHER -> States(m[1]) - 1)

(* the probability of the state the model was in, now *)
ProbIn(x, s) == Prob(<<x[1], s, x[3]>>)
Learns == last[1] = "update" =>
            IF last[2] = 1 THEN ProbIn(m, old[2]) >= ProbIn(old, old[2])
            ELSE ProbIn(m, old[2]) <= ProbIn(old, old[2])
PassesBy == last[1] = "state" => m[3] = old[3]
Forgets == last[1] = "reset" => m[3] = InitModel(m[1])[3]
=============================================================================
