---------------------------- MODULE PredictorMC ----------------------------
(***************************************************************************)
(* The predictors by themselves, exhaustively: all the values that a          *)
(* probability can ever get, whatever the bits.                               *)
(***************************************************************************)
EXTENDS Models
VARIABLES kind, p      \* kind: <<min, delay>> or "even"
Kinds == {<<2, 4>>, <<2, 5>>, <<100, 5>>, <<-1, -1>>}
Inits(k) == IF k = <<2, 4>> THEN {2400} ELSE IF k = <<2, 5>> THEN {2300, 2200, 2100, 2048} ELSE {2048}
Init == kind \in Kinds /\ p \in Inits(kind)
Next == \E b \in Bit : p' = (IF kind[1] < 0 THEN Even4(p, b) ELSE Unbiased(p, b, kind[1], kind[2])) /\ UNCHANGED kind
Spec == Init /\ [][Next]_<<kind, p>>
Inside == IF kind[1] < 0 THEN p \in {1024, 2048, 3072} ELSE p \in kind[1]..(Scale - kind[1])
Never0 == p > 0 /\ p < Scale
=============================================================================
