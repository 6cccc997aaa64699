----------------------------- MODULE GrammarTrace -----------------------------
(***************************************************************************)
(* Judges a real Grammar: after each round its state, what it wrote, what a     *)
(* grammar that read it became; and what a Postprocessor makes of texts.        *)
(***************************************************************************)
EXTENDS GrammarMachine, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Bag(s) == {<<s[i].x[1], s[i].x[2], s[i].x[3]>> : i \in 1..Len(s)}
Rules(s) == [i \in 1..Len(s) |-> [large |-> s[i].large = 1, var |-> s[i].var, rhs |-> s[i].rhs]]
FreedOf(m) == {<<PairOf(m.specials, k - 1)[1], PairOf(m.specials, k - 1)[2], m.pairs[k].sym>> :
                  k \in {j \in 1..Len(m.pairs) : ~m.pairs[j].asVar}}
NotSquare(m) == {k \in 1..Len(m.pairs) : ~m.pairs[k].asVar /\ ~IsSquare(k - 1)}

Same(m, st) ==
  /\ st.specials = m.specials
  /\ {st.isspecial[i] : i \in 1..Len(st.isspecial)} = {m.specials[i] : i \in 1..Len(m.specials)}
  /\ Rules(st.rules) = m.rules
  /\ Len(st.freed) = Cardinality(FreedOf(m)) /\ Bag(st.freed) = FreedOf(m)
  /\ st.nfreed = Cardinality(NotSquare(m))
  /\ st.left = PairsLeft(m)
  /\ \A c \in Byte : st.freqs[c + 1] = Occurrences(m, c)

WrittenOK(m, r) ==
  With(ReadGrammar(r.written, 1), LAMBDA g :
    /\ g.ok /\ g.next = Len(r.written) + 1 /\ r.told = Len(r.written) /\ r.used = Len(r.written)
    /\ g.val.rules = m.rules /\ g.val.specials = m.specials /\ g.val.freed = GrammarOf(m).freed)

Step(a, r) ==
  With(Round(a[1], r.freed, r.news, r.freed \o r.frees, [i \in 1..Len(r.pairs) |-> r.pairs[i].x]), LAMBDA m :
    << m, /\ [i \in 1..Len(r.freed) |-> 256 * Renaming(a[1], m)[r.freed[i]][1] + Renaming(a[1], m)[r.freed[i]][2]] = r.next
          /\ Same(m, r.state)
          /\ Same(m, r.back)
          /\ WrittenOK(m, r) >>)

Judge(e) ==
  /\ e.ev = "grammar"
  /\ With(FoldLeft(LAMBDA a, r : IF a[2] THEN Step(a, r) ELSE a, <<EmptyMachine, TRUE>>, e.rounds), LAMBDA z :
       /\ z[2]
       /\ \A i \in 1..Len(e.texts) :
            LET t == e.texts[i]
            IN With(ExpandChecked(GrammarOf(z[1]), t.in), LAMBDA x :
                 /\ x.ok                        \* else the generator is wrong
                 /\ t.out = x.val /\ t.again = x.val /\ t.told = Len(x.val) /\ t.told2 = Len(x.val)))
TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ (Judge(Trace[l]) \/ PrintT(<<"REJECT", l>>))
  /\ (l = Len(Trace) => PrintT(<<"DONE", l>>))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
