---------------------------- MODULE GrammarMachine ----------------------------
(***************************************************************************)
(* How a grammar grows.  A round of the preprocessor takes new special         *)
(* symbols and frees symbols (both keep their meaning as pairs of special      *)
(* symbols), adds a rule for each replaced pair and rewrites the text.         *)
(*                                                                            *)
(* State m: [specials, rules, pairs, vars]                                    *)
(*   pairs  sequence over the pair numbers in use: [asVar, sym]: the pair is   *)
(*          a variable (that was sym before), or stands for sym               *)
(*   vars   bytes that are or have been variables                             *)
(***************************************************************************)
EXTENDS Grammar

EmptyMachine == [specials |-> <<>>, rules |-> <<>>, pairs |-> <<>>, vars |-> {}]

PairsLeft(m) == Len(m.specials) * Len(m.specials) - Len(m.pairs)

(* k: number of a pair; the two bytes of it *)
PairOf(sp, k) ==
  LET n == Len(sp)
      ij == CHOOSE x \in (1..n) \X (1..n) : PairNumber(x[1] - 1, x[2] - 1) = k
  IN <<sp[ij[1]], sp[ij[2]]>>

(* How many new special symbols it takes to free n symbols *)
RECURSIVE SpecialsFor(_, _, _)
SpecialsFor(ns, inUse, n) ==
  IF n = 0 THEN 0
  ELSE IF ns * ns = inUse THEN 1 + SpecialsFor(ns + 1, inUse + 1, n)
  ELSE SpecialsFor(ns, inUse + 1, n - 1)
NeededSpecials(m, n) == SpecialsFor(Len(m.specials), Len(m.pairs), n)

(* The symbols of freed get pairs one after another, a new special symbol is
   taken whenever all the pairs are in use. *)
RECURSIVE TakePairs(_, _, _)
TakePairs(m, freed, news) ==
  IF freed = <<>> THEN m
  ELSE IF PairsLeft(m) = 0
  THEN TakePairs([m EXCEPT !.specials = Append(@, Head(news)),
                           !.pairs = Append(@, [asVar |-> FALSE, sym |-> Head(news)])],
                 freed, Tail(news))
  ELSE TakePairs([m EXCEPT !.pairs = Append(@, [asVar |-> Head(freed) \in m.vars, sym |-> Head(freed)]),
                           !.vars = @ \cup {Head(freed)}],
                 Tail(freed), news)

(* byte -> what is written for it from now on *)
Renaming(m0, m1) ==
  LET start == Len(m0.pairs)
      at(c) == {k \in (start + 1)..Len(m1.pairs) : m1.pairs[k].sym = c}
  IN [c \in Byte |-> IF at(c) = {} THEN <<c>> ELSE PairOf(m1.specials, (CHOOSE k \in at(c) : TRUE) - 1)]

(* freed, news: as above; repl: bytes that become variables: the freed ones
   and then symbols that are not in use anywhere; pairs: <<x, y>> for each *)
Round(m, freed, news, repl, pairs) ==
  With(TakePairs(m, freed, news), LAMBDA t :
  With(Renaming(m, t), LAMBDA ren :
    LET Old(r) == IF r.large \/ Len(ren[r.var[1]]) = 1 THEN [r EXCEPT !.rhs = Concat([i \in 1..Len(r.rhs) |-> ren[r.rhs[i]]])]
                  ELSE [large |-> TRUE, var |-> ren[r.var[1]], rhs |-> Concat([i \in 1..Len(r.rhs) |-> ren[r.rhs[i]]])]
        New(i) == [large |-> FALSE, var |-> << repl[i] >>, rhs |-> ren[pairs[i][1]] \o ren[pairs[i][2]]]
    IN [t EXCEPT !.rules = [i \in 1..Len(m.rules) |-> Old(m.rules[i])] \o [i \in 1..Len(pairs) |-> New(i)],
                 !.vars = @ \cup {repl[i] : i \in 1..Len(repl)}]))

(* What may be asked of a grammar: symbols are not special yet and all
   different; as many new special symbols as are needed *)
Legal(m, freed, news, frees, pairs, inText) ==
  LET sp == {m.specials[i] : i \in 1..Len(m.specials)}
      all == freed \o news \o frees
      inRules == UNION {{m.rules[i].rhs[j] : j \in 1..Len(m.rules[i].rhs)} \cup {m.rules[i].var[j] : j \in 1..Len(m.rules[i].var)} : i \in 1..Len(m.rules)}
  IN /\ \A i, j \in 1..Len(all) : i # j => all[i] # all[j]
     /\ \A i \in 1..Len(all) : all[i] \notin sp
     /\ Len(news) = NeededSpecials(m, Len(freed))
     /\ Len(pairs) = Len(freed) + Len(frees)
     /\ \A i \in 1..Len(frees) : frees[i] \notin inText /\ frees[i] \notin inRules
     /\ \A i, j \in 1..Len(pairs) : i # j => pairs[i] # pairs[j]
     /\ \A i \in 1..Len(pairs) : pairs[i][1] \notin sp /\ pairs[i][2] \notin sp

(* The text in the new alphabet: tokens are pairs of special symbols (as they
   are), replaced pairs (their variable) and the others (renamed).  where: the
   positions of the pairs that are replaced *)
RECURSIVE Rewrite(_, _, _, _, _, _, _)
Rewrite(sp, ren, repl, pairs, where, s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF s[i] \in sp THEN << s[i], s[i + 1] >> \o Rewrite(sp, ren, repl, pairs, where, s, i + 2)
  ELSE IF i \in where
  THEN << repl[CHOOSE k \in 1..Len(pairs) : pairs[k] = <<s[i], s[i + 1]>>] >> \o Rewrite(sp, ren, repl, pairs, where, s, i + 2)
  ELSE ren[s[i]] \o Rewrite(sp, ren, repl, pairs, where, s, i + 1)

(* positions where a token begins *)
RECURSIVE TokenStarts(_, _, _)
TokenStarts(sp, s, i) == IF i > Len(s) THEN {}
                         ELSE {i} \cup TokenStarts(sp, s, i + IF s[i] \in sp THEN 2 ELSE 1)

(* The grammar as the format knows it *)
GrammarOf(m) ==
  [specials |-> m.specials, rules |-> m.rules,
   freed |-> [k \in 1..(Len(m.specials) * Len(m.specials)) |->
               IF k > Len(m.pairs) THEN (IF IsSquare(k - 1) THEN m.specials[(CHOOSE q \in 0..255 : q * q = k - 1) + 1] ELSE -1)
               ELSE IF m.pairs[k].asVar THEN -1 ELSE m.pairs[k].sym]]

(* Occurrences of a byte on the sides of the rules *)
Occurrences(m, c) ==
  SumSeq([i \in 1..Len(m.rules) |->
           Len(SelectSeq(m.rules[i].rhs \o m.rules[i].var, LAMBDA x : x = c))])
=============================================================================
