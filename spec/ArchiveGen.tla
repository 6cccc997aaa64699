------------------------------ MODULE ArchiveGen ------------------------------
(***************************************************************************)
(* Writes the archives of plans (those of Writer; the grammar of a block is    *)
(* given by the rounds in which it grew) to a file, for the real decoders.      *)
(***************************************************************************)
EXTENDS Writer, GrammarMachine, Json, IOUtils
Plans == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Grow(m, r) ==
  IF Legal(m, r.freed, r.news, r.frees, r.pairs, {})
  THEN Round(m, r.freed, r.news, r.freed \o r.frees, r.pairs)
  ELSE Assert(FALSE, "illegal round")
GrammarFrom(rounds) == GrammarOf(FoldLeft(Grow, EmptyMachine, rounds))
PlanOf(e) == [coder |-> e.coder,
              blocks |-> IF \A i \in 1..Len(e.blocks) : \A j \in 1..Len(e.blocks[i].slices) :
                              LET s == e.blocks[i].slices[j] IN "col" \in DOMAIN s => InverseWalk(s.col) = s.text
                         THEN [i \in 1..Len(e.blocks) |-> [grammar |-> GrammarFrom(e.blocks[i].rounds), slices |-> e.blocks[i].slices]]
                         ELSE Assert(FALSE, "not the column of the text")]
(* <<>> if a preprocessed block is longer than what it means: not in the format *)
Write(e) ==
  With(PlanOf(e), LAMBDA p :
    IF \E i \in 1..Len(p.blocks) :
         With(TextOf(p.blocks[i]), LAMBDA t : Len(t) > Len(ExpandChecked(p.blocks[i].grammar, t).val))
    THEN [ar |-> <<>>]
    ELSE [ar |-> IF e.pre = 1 THEN WritePre(p) ELSE WriteArchive(p)])

Init == l = 1
Next == /\ l = 1
        /\ l' = 2
        /\ ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(Plans) |-> Write(Plans[i])])
        /\ PrintT(<<"DONE", Len(Plans)>>)
Spec == Init /\ [][Next]_l
=============================================================================
