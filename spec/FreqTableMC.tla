----------------------------- MODULE FreqTableMC -----------------------------
(***************************************************************************)
(* The sorted array with locations of FrequencyTable, with a few keys,         *)
(* refining FreqTable: keys are moved by swapping with neighbours; a key is     *)
(* removed by making it the most frequent and shortening the array.            *)
(***************************************************************************)
EXTENDS FreqTable
CONSTANTS N, MaxFreq, MaxOps
VARIABLES abs, arr, last, ops      \* arr: sequence of <<key, frequency>>
vars == <<abs, arr, last, ops>>
Keys == 0..(N - 1)
Pos(k) == CHOOSE i \in 1..N : arr[i][1] = k
Sorted == {s \in [1..N -> Keys \X (0..MaxFreq)] :
             /\ {s[i][1] : i \in 1..N} = Keys
             /\ \A i \in 1..(N - 1) : s[i][2] <= s[i + 1][2]}
Init == /\ arr \in Sorted /\ last = N /\ ops = 0
           /\ abs = [k \in Keys |-> arr[CHOOSE i \in 1..N : arr[i][1] = k][2]]
RECURSIVE Up(_, _, _)
Up(s, i, v) == IF i + 1 <= last /\ v > s[i + 1][2]
               THEN Up([s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]], i + 1, v)
               ELSE [s EXCEPT ![i] = <<@[1], v>>]
RECURSIVE Down(_, _, _)
Down(s, i, v) == IF i > 1 /\ v < s[i - 1][2]
                 THEN Down([s EXCEPT ![i] = s[i - 1], ![i - 1] = s[i]], i - 1, v)
                 ELSE [s EXCEPT ![i] = <<@[1], v>>]
Turn == ops < MaxOps /\ ops' = ops + 1
Inc == \E k \in Live(abs), n \in 0..2 : Turn /\ abs' = Increase(abs, k, n) /\ arr' = Up(arr, Pos(k), arr[Pos(k)][2] + n) /\ UNCHANGED last
Dec == \E k \in Live(abs), n \in 0..2 : Turn /\ CanDecrease(abs, k, n) /\ abs' = Decrease(abs, k, n)
                                         /\ arr' = Down(arr, Pos(k), arr[Pos(k)][2] - n) /\ UNCHANGED last
Rem == \E k \in Live(abs) : Turn /\ abs' = DropKey(abs, k) /\ arr' = Up(arr, Pos(k), arr[last][2] + 1) /\ last' = last - 1
Next == Inc \/ Dec \/ Rem
Spec == Init /\ [][Next]_vars
Refines == IsOrder(abs, [i \in 1..last |-> arr[i][1]], [i \in 1..last |-> arr[i][2]])
Permutation == {arr[i][1] : i \in 1..N} = Keys
=============================================================================
