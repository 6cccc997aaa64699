-------------------------------- MODULE Coders --------------------------------
(***************************************************************************)
(* Encoders as objects.  Each has a coder and models that go on from block to   *)
(* block; what it wrote so far decodes to the blocks it was given, and a         *)
(* decoder that read all of it has the very same models.  Nothing that happens    *)
(* to one object matters to the others.                                          *)
(***************************************************************************)
EXTENDS Writer

(* The decoder after n blocks of bytes d: [ok, texts, next, models, ends] *)
ReadSlices(coder, d, n) ==
  FoldLeft(LAMBDA a, i :
             IF ~a.ok THEN a
             ELSE With(DecodeSlice(d, coder, a.next, a.models), LAMBDA s :
                    [ok |-> s.ok, next |-> s.next, models |-> s.models, texts |-> Append(a.texts, s.text),
                     ends |-> Append(a.ends, s.next)]),
           [ok |-> TRUE, next |-> 1, models |-> InitModels(coder), texts |-> <<>>, ends |-> <<>>],
           [i \in 1..n |-> i])
=============================================================================
