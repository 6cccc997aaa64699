------------------------------ MODULE GrammarMC ------------------------------
(***************************************************************************)
(* All short texts and all legal rounds: the text keeps its meaning, and the   *)
(* grammar survives writing and reading.                                       *)
(***************************************************************************)
EXTENDS GrammarMachine
CONSTANTS Symbols, TextSymbols, MaxLen, MaxRounds, MaxFreed, MaxFrees
VARIABLES m, text, original, rounds
vars == <<m, text, original, rounds>>
Arrangements(S, n) == {s \in [1..n -> S] : \A i, j \in 1..n : i # j => s[i] # s[j]}
Init == /\ m = EmptyMachine /\ rounds = 0
        /\ original \in UNION {[1..n -> TextSymbols] : n \in 2..MaxLen}
        /\ text = original
ASet(s) == {s[i] : i \in 1..Len(s)}
Next ==
  LET sp == ASet(m.specials)
      starts == TokenStarts(sp, text, 1)
      plain == {i \in starts : i + 1 \in starts /\ text[i] \notin sp /\ text[i + 1] \notin sp}
      occ == {<<text[i], text[i + 1]>> : i \in plain}
  IN
  /\ rounds < MaxRounds
  /\ \E nf \in 0..MaxFreed, ne \in 0..MaxFrees :
     \E freed \in Arrangements(Symbols \ sp, nf) :
     \E news \in Arrangements((Symbols \ sp) \ ASet(freed), NeededSpecials(m, nf)) :
     \E frees \in Arrangements(((Symbols \ sp) \ ASet(freed)) \ ASet(news), ne) :
     \E pairs \in Arrangements(occ, nf + ne) :
     /\ nf + ne > 0
     /\ Legal(m, freed, news, frees, pairs, ASet(text))
     /\ LET repl == freed \o frees
            cand == {i \in plain : <<text[i], text[i + 1]>> \in ASet(pairs)}
        IN \E where \in SUBSET cand :
           /\ \A i \in where : i + 1 \notin where
           /\ m' = Round(m, freed, news, repl, pairs)
           /\ text' = Rewrite(sp, Renaming(m, TakePairs(m, freed, news)), repl, pairs, where, text, 1)
     /\ rounds' = rounds + 1
     /\ UNCHANGED original
Spec == Init /\ [][Next]_vars

MeaningKept == LET e == ExpandChecked(GrammarOf(m), text) IN e.ok /\ e.val = original
ShortRules == \A i \in 1..Len(m.rules) : Len(m.rules[i].rhs) \in 2..4
(* What is read means the same as what was written (unused pairs may differ) *)
Written == LET w == WriteGrammar(GrammarOf(m))
               r == ReadGrammar(w, 1)
           IN /\ r.ok /\ r.next = Len(w) + 1
              /\ r.val.rules = m.rules
              /\ m.rules # <<>> =>
                 /\ r.val.specials = m.specials
                 /\ r.val.freed = GrammarOf(m).freed
=============================================================================
