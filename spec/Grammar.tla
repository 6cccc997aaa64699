------------------------------- MODULE Grammar -------------------------------
(***************************************************************************)
(* Grammars of the preprocessor: their serialized form and their meaning.   *)
(*                                                                          *)
(* A grammar is [specials, rules, freed]:                                   *)
(*   specials  sequence of special symbols in the order they were taken     *)
(*   rules     sequence of [large, var, rhs]: var is a byte, or a pair of   *)
(*             special symbols when large                                   *)
(*   freed     sequence over pair numbers 0,1,2..: the byte that the pair   *)
(*             of specials of that number stands for, or -1 when the pair   *)
(*             is a variable of the grammar (or is not in use)              *)
(* Pairs of specials are numbered so that those of the first k specials are *)
(* 0 .. k*k-1, the pair (s,s) of the k:th special being (k-1)*(k-1).        *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets

PairNumber(i, j) ==      \* i, j 0-based indices of specials
  IF i = j THEN i * i
  ELSE IF i > j THEN i * (i + 1) + j + 1
  ELSE j * j + i + 1

IsSquare(n) == \E k \in 0..255 : k * k = n

EmptyGrammar == [specials |-> <<>>, rules |-> <<>>, freed |-> <<>>]

(***************************************************************************)
(* Reading.  d: bytes, pos: position of the first byte                      *)
(***************************************************************************)
ReadGrammar(d, pos) ==
  LET nr  == Unpack(d, pos)
      n   == nr.val
      ns  == ByteAt(d, nr.next)
      p1  == nr.next + 1 + ns                      \* flags
      p2  == p1 + ((n + 7) \div 8)                 \* variables
      ix  == [i \in 1..n |-> i]
  IN IF n = 0 THEN [val |-> EmptyGrammar, next |-> nr.next, ok |-> TRUE]
     ELSE IF n > Len(d) \/ ns > 255 THEN [val |-> EmptyGrammar, next |-> nr.next, ok |-> FALSE]
     ELSE
     With([i \in 1..ns |-> ByteAt(d, nr.next + i)], LAMBDA sp :
     With([i \in 1..n |-> BitAt(d, 8 * (p1 - 1) + i - 1)], LAMBDA large :
     With(FoldLeft(LAMBDA a, i : Append(a, a[Len(a)] + 1 + large[i]), <<p2>>, ix), LAMBDA off :
     With([i \in 1..n |-> IF large[i] = 1 THEN <<ByteAt(d, off[i]), ByteAt(d, off[i] + 1)>>
                          ELSE <<ByteAt(d, off[i])>>], LAMBDA vars :
     LET p3  == off[n + 1]                         \* freed symbols
         nf  == ByteAt(d, p3)
         p4  == p3 + 1 + nf                        \* lengths of right sides
         p5  == p4 + ((n + 3) \div 4)
         Idx(c) == IF \E i \in 1..ns : sp[i] = c THEN (CHOOSE i \in 1..ns : sp[i] = c) - 1 ELSE 99
     IN
     With({PairNumber(Idx(vars[i][1]), Idx(vars[i][2])) : i \in {j \in 1..n : large[j] = 1}}, LAMBDA used :
     \* pairs that are neither (s,s) nor variables get the freed bytes in order
     With(SelectSeq([i \in 1..(ns * ns) |-> i - 1],
                    LAMBDA k : ~IsSquare(k) /\ k \notin used), LAMBDA slots :
     With([i \in 1..n |-> 2 + BitsAt(d, 8 * (p4 - 1) + 2 * (i - 1), 2)], LAMBDA len :
     With(FoldLeft(LAMBDA a, i : Append(a, a[Len(a)] + len[i]), <<p5>>, ix), LAMBDA ro :
       [val |-> [specials |-> sp,
                 rules |-> [i \in 1..n |->
                   [large |-> large[i] = 1, var |-> vars[i],
                    rhs |-> [j \in 1..len[i] |-> ByteAt(d, ro[i] + j - 1)]]],
                 freed |-> [k \in 1..(ns * ns) |->
                   IF IsSquare(k - 1) THEN sp[(CHOOSE q \in 0..255 : q * q = k - 1) + 1]
                   ELSE IF (k - 1) \in used THEN -1
                   ELSE LET at == CHOOSE i \in 1..Len(slots) : slots[i] = k - 1
                        IN IF at <= nf THEN ByteAt(d, p3 + at) ELSE -1]],
        next |-> ro[n + 1],
        ok |-> /\ nf <= Len(slots)
               /\ ns <= 255
               /\ Cardinality({sp[i] : i \in 1..ns}) = ns
               /\ \A u \in used : u < ns * ns
               /\ Cardinality(used) = Len(SelectSeq(large, LAMBDA x : x = 1))]))))))))

(***************************************************************************)
(* Writing                                                                  *)
(***************************************************************************)
WriteGrammar(g) ==
  LET n == Len(g.rules)
      fr == SelectSeq([k \in 1..Len(g.freed) |-> <<k - 1, g.freed[k]>>],
                      LAMBDA x : ~IsSquare(x[1]) /\ x[2] >= 0)
  IN IF n = 0 THEN <<0>>
     ELSE PackInt(n) \o <<Len(g.specials)>> \o g.specials
          \o BytesOfBits([i \in 1..n |-> IF g.rules[i].large THEN 1 ELSE 0])
          \o Concat([i \in 1..n |-> g.rules[i].var])
          \o <<Len(fr)>> \o [i \in 1..Len(fr) |-> fr[i][2]]
          \o BytesOfBits(Concat([i \in 1..n |-> BitsOf(Len(g.rules[i].rhs) - 2, 2)]))
          \o Concat([i \in 1..n |-> g.rules[i].rhs])

(***************************************************************************)
(* Meaning.  Tokens of a string: a special symbol and the symbol after it    *)
(* form one token.  Tokens are numbers: c for a byte, 256*k + c for the k:th *)
(* special symbol followed by c.                                             *)
(***************************************************************************)
(* byte -> number of the special symbol, 0 for the others *)
SpecialIndex(g) ==
  [c \in 1..256 |-> IF \E i \in 1..Len(g.specials) : g.specials[i] = c - 1
                   THEN CHOOSE i \in 1..Len(g.specials) : g.specials[i] = c - 1 ELSE 0]

Tokens(si, s) ==
  With(FoldLeft(LAMBDA a, c :
              IF a[1] > 0 THEN <<0, Append(a[2], 256 * a[1] + c)>>
              ELSE IF si[c + 1] > 0 THEN <<si[c + 1], a[2]>>
              ELSE <<0, Append(a[2], c)>>, <<0, <<>> >>, s), LAMBDA r :
    [val |-> r[2], ok |-> r[1] = 0])

(* Meanings are sequences indexed by token + 1; <<-1>> is "none" *)
None == <<-1>>
PairToken(g, k) ==     \* token of the pair number k
  LET n == Len(g.specials)
      ij == CHOOSE x \in (0..(n-1)) \X (0..(n-1)) : PairNumber(x[1], x[2]) = k
  IN 256 * (ij[1] + 1) + g.specials[ij[2] + 1]

BaseMeaning(g) ==
  With([t \in 1..(256 * (Len(g.specials) + 1)) |-> IF t <= 256 THEN <<t - 1>> ELSE None], LAMBDA base :
    FoldLeft(LAMBDA m, k : IF g.freed[k] >= 0
                           THEN [m EXCEPT ![PairToken(g, k - 1) + 1] = << g.freed[k] >>] ELSE m,
             base, [k \in 1..Len(g.freed) |-> k]))

(* [val, ok]: ok iff there is no dangling special symbol and every pair has
   a meaning *)
ExpandWith(si, mean, s) ==
  With(Tokens(si, s), LAMBDA t :
    [val |-> Concat([i \in 1..Len(t.val) |-> mean[t.val[i] + 1]]),
     ok |-> t.ok /\ \A i \in 1..Len(t.val) : mean[t.val[i] + 1] # None])

RuleToken(si, r) == IF r.large THEN 256 * si[r.var[1] + 1] + r.var[2] ELSE r.var[1]

(* Later rules may use the variables of earlier ones. <<meaning, ok>> *)
Meaning(g, si) ==
  With(BaseMeaning(g), LAMBDA base :
    FoldLeft(LAMBDA m, r :
               With(ExpandWith(si, m[1], r.rhs), LAMBDA e :
                 LET t == RuleToken(si, r)
                 IN << [m[1] EXCEPT ![t + 1] = e.val],
                       m[2] /\ e.ok
                         /\ (r.large => /\ t >= 256
                                        /\ \/ m[1][t + 1] = None
                                           \* a variable was taken as a special symbol
                                           \/ r.var[1] = r.var[2] /\ m[1][t + 1] = << r.var[1] >>) >>),
             <<base, TRUE>>, g.rules))

ExpandChecked(g, s) ==
  IF g.rules = <<>> THEN [val |-> s, ok |-> TRUE]
  ELSE With(SpecialIndex(g), LAMBDA si :
       With(Meaning(g, si), LAMBDA m :
       With(ExpandWith(si, m[1], s), LAMBDA e : [val |-> e.val, ok |-> e.ok /\ m[2]])))

Expand(g, s) == ExpandChecked(g, s).val
=============================================================================
