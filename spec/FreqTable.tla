------------------------------ MODULE FreqTable ------------------------------
(***************************************************************************)
(* The table of byte frequencies that the pair replacer chooses symbols by.   *)
(* State: frequency of each key, -1 for a removed one.                        *)
(***************************************************************************)
EXTENDS Bytes
Live(t) == {k \in DOMAIN t : t[k] >= 0}
Increase(t, k, n) == [t EXCEPT ![k] = @ + n]
Decrease(t, k, n) == [t EXCEPT ![k] = @ - n]
CanDecrease(t, k, n) == t[k] >= n
DropKey(t, k) == [t EXCEPT ![k] = -1]

(* keys: the keys as told in the order of the table, freqs: their frequencies *)
IsOrder(t, keys, freqs) ==
  /\ Len(keys) = Cardinality(Live(t)) /\ Len(freqs) = Len(keys)
  /\ {keys[i] : i \in 1..Len(keys)} = Live(t)
  /\ \A i \in 1..Len(keys) : freqs[i] = t[keys[i]]
  /\ \A i \in 1..(Len(keys) - 1) : freqs[i] <= freqs[i + 1]
=============================================================================
