------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* The adaptive probability models (probmodels).  A model is a value       *)
(* <<kind, state, memory>>; encoder and decoder hold one each and keep      *)
(* them equal by feeding them the same bits.                                *)
(*                                                                          *)
(*   kind   state               memory                                      *)
(*   "B"    0..7                8 probabilities (FSM8; also the default)     *)
(*   "b"    0..5                6 probabilities (FSM of even intervals)      *)
(*   "u"    0                   1 probability   (even intervals)             *)
(*   "m"    last 8 bits         history -2..2 for each context               *)
(*   "M"    last 16 bits        history -2..2 for each context               *)
(*   "int"  0..2                3 probabilities (codes of run lengths)       *)
(*   "gap"  0..3                4 probabilities (bits coming after gaps)     *)
(***************************************************************************)
EXTENDS Bytes

Scale == 4096

(* moves the probability 1/2^delay of its way towards Scale-min or min *)
Unbiased(p, bit, min, delay) ==
  IF bit = 1 THEN p + ((Scale - min - p) \div Pow2(delay))
             ELSE p - ((p - min) \div Pow2(delay))

Even4(p, bit) == IF bit = 1 THEN (IF p + 1024 < Scale THEN p + 1024 ELSE p)
                            ELSE (IF 1024 < p THEN p - 1024 ELSE p)

NextState(n, s, bit) ==
  IF n = 3 THEN
     (IF s = 1 THEN (IF bit = 1 THEN 2 ELSE 0)
      ELSE IF s = 2 /\ bit = 1 THEN 2
      ELSE IF s = 0 /\ bit = 0 THEN 0 ELSE 1)
  ELSE IF bit = 1
       THEN (IF s >= n \div 2 THEN Min2(s + 1, n - 1) ELSE n \div 2)
       ELSE (IF s < n \div 2 THEN Max2(s - 1, 0) ELSE (n - 1) \div 2)

(* FSM8: states 0..3 hold the probability of one, 4..7 that of zero *)
BMin == 2
BDelay == <<4, 5, 5, 5, 5, 5, 5, 4>>
BInit  == <<2400, 2300, 2200, 2100, 2100, 2200, 2300, 2400>>

KindOf(c) == IF c \in {"b", "u", "m", "M"} THEN c ELSE "B"

InitModel(kind) ==
  CASE kind = "B"   -> <<"B", 4, BInit>>
    [] kind = "b"   -> <<"b", 3, Repeat(2048, 6)>>
    [] kind = "u"   -> <<"u", 0, <<2048>> >>
    [] kind = "m"   -> <<"m", 0, <<>> >>
    [] kind = "M"   -> <<"M", 0, <<>> >>
    [] kind = "int" -> <<"int", 1, Repeat(2048, 3)>>
    [] kind = "gap" -> <<"gap", 2, Repeat(2048, 4)>>

(* FSM8 and the histories keep their state over a reset. *)
Reset(m) ==
  IF m[1] \in {"B", "m", "M"} THEN <<m[1], m[2], InitModel(m[1])[3]>>
                              ELSE InitModel(m[1])

HistOf(m) == IF m[2] \in DOMAIN m[3] THEN m[3][m[2]] ELSE 0

Prob(m) ==
  CASE m[1] = "B" -> (IF m[2] < 4 THEN m[3][m[2] + 1] ELSE Scale - m[3][m[2] + 1])
    [] m[1] \in {"m", "M"} ->
         LET h == HistOf(m) IN <<4, 16, 64, 256, 1024>>[h + 3]
    [] OTHER -> m[3][m[2] + 1]

States(kind) == CASE kind = "B" -> 8 [] kind = "b" -> 6 [] kind = "int" -> 3
                  [] kind = "gap" -> 4 [] OTHER -> 1

(* Only the state changes *)
UpdateState(m, bit) ==
  IF m[1] \in {"u", "m", "M"} THEN m
  ELSE <<m[1], NextState(States(m[1]), m[2], bit), m[3]>>

Update(m, bit) ==
  CASE m[1] = "B" ->
         LET i == m[2] + 1
         IN <<"B", NextState(8, m[2], bit),
              [m[3] EXCEPT ![i] =
                 Unbiased(@, IF i > 4 THEN 1 - bit ELSE bit, BMin, BDelay[i])]>>
    [] m[1] = "b" ->
         <<"b", NextState(6, m[2], bit), [m[3] EXCEPT ![m[2] + 1] = Even4(@, bit)]>>
    [] m[1] = "u" -> <<"u", 0, << Even4(m[3][1], bit) >> >>
    [] m[1] = "int" ->
         <<"int", NextState(3, m[2], bit),
           [m[3] EXCEPT ![m[2] + 1] = Unbiased(@, bit, 100, 5)]>>
    [] m[1] = "gap" ->
         <<"gap", NextState(4, m[2], bit),
           [m[3] EXCEPT ![m[2] + 1] = Unbiased(@, bit, 2, 5)]>>
    [] OTHER ->
         LET h  == HistOf(m)
             h2 == IF bit = 1 THEN Min2(h + 1, 2) ELSE Max2(h - 1, -2)
             n  == IF m[1] = "m" THEN 256 ELSE 65536
         IN <<m[1], (2 * m[2] + bit) % n, (m[2] :> h2) @@ m[3]>>
=============================================================================
