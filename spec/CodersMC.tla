------------------------------- MODULE CodersMC -------------------------------
EXTENDS Coders
CONSTANTS Letters, MaxText, Kinds, Objects, Steps
VARIABLES objs, n
vars == <<objs, n>>

Texts == UNION {[1..k -> Letters] : k \in 1..MaxText}
Flat(x) ==           \* one section, a code of the letters that occur, all run lengths escaped
  LET syms == SetToSortSeq({x[i] : i \in 1..Len(x)}, LAMBDA a, b : a < b)
      k == Len(syms)
  IN [size |-> Len(x), w |-> 2, ipairs |-> <<>>,
      pairs |-> [i \in 1..k |-> <<IF k = 1 THEN 1 ELSE IF i = k THEN k - 1 ELSE i, syms[i]>>]]
New(c) == [coder |-> c, bytes |-> <<>>, models |-> InitModels(c), texts |-> <<>>]
Init == objs \in [Objects -> {New(c) : c \in Kinds}] /\ n = 0
EncodeBlock(o, t) ==
  LET b == objs[o]
      w == WriteSlice(b.coder, <<b.bytes, b.models>>, [text |-> t, starts |-> 1, sections |-> << Flat(t) >>])
  IN objs' = [objs EXCEPT ![o] = [@ EXCEPT !.bytes = w[1], !.models = w[2], !.texts = Append(@, t)]]
Next == n < Steps /\ n' = n + 1 /\ \E o \in Objects, t \in Texts : EncodeBlock(o, t)
Spec == Init /\ [][Next]_vars

InStep == \A o \in Objects :
  LET b == objs[o]
  IN With(ReadSlices(b.coder, b.bytes, Len(b.texts)), LAMBDA r :
       r.ok /\ r.texts = b.texts /\ r.next = Len(b.bytes) + 1 /\ r.models = b.models)
Apart == [][\E o \in Objects : \A p \in Objects \ {o} : objs'[p] = objs[p]]_vars
=============================================================================
