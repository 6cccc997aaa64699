---------------------------- MODULE RangeCoderMC ----------------------------
(***************************************************************************)
(* The range coder as a state machine: the encoder takes bits with any of    *)
(* the probabilities of Probs, may finish a sequence and start another one.  *)
(* Checked exhaustively for all short histories: the interval never gets     *)
(* empty, the decoder given the same probabilities returns the same bits,    *)
(* and it has then read exactly the bytes written, so that what comes next   *)
(* in the stream can be read.                                                *)
(***************************************************************************)
EXTENDS RangeCoder
CONSTANTS Probs, MaxBits, MaxSeqs

VARIABLES enc,      \* encoder
          cur,      \* <<bit, probability>> pairs of the sequence under way
          old,      \* finished sequences
          out       \* bytes of the finished sequences
vars == <<enc, cur, old, out>>

Init == enc = EncInit /\ cur = <<>> /\ old = <<>> /\ out = <<>>

Used == FoldLeft(LAMBDA a, s : a + Len(s), Len(cur), old)
PutBit == /\ Used < MaxBits
          /\ \E b \in Bit, p \in Probs :
               /\ enc' = EncStep(enc, b, p)
               /\ cur' = Append(cur, <<b, p>>)
          /\ UNCHANGED <<old, out>>
Finish == /\ Len(old) < MaxSeqs
          /\ out' = out \o EncFinish(enc)
          /\ old' = Append(old, cur)
          /\ enc' = EncInit /\ cur' = <<>>
Next == PutBit \/ Finish
Spec == Init /\ [][Next]_vars

(* Low < high, and the words are words *)
WellFormed ==
  /\ \A i \in 1..4 : enc[i] \in 0..65535
  /\ WLeq(<<enc[1], enc[2]>>, <<enc[3], enc[4]>>)
  /\ <<enc[1], enc[2]>> # <<enc[3], enc[4]>>
  /\ enc[1] \div 256 # enc[3] \div 256

(* Both halves are nonempty whatever the probability *)
BothHalves == \A p \in Probs :
  LET sp == Split(enc[1], enc[2], enc[3], enc[4], p)
  IN WLeq(<<enc[1], enc[2]>>, sp) /\ WLeq(sp, <<enc[3], enc[4]>>) /\ sp # <<enc[3], enc[4]>>

(* Decoding of the sequences one after another from the same bytes *)
DecodeAll ==
  FoldLeft(LAMBDA a, s :
             With(FoldLeft(LAMBDA c, x : With(DecStep(out, c[1], x[2]), LAMBDA r : <<r[2], Append(c[2], r[1])>>),
                           <<DecInit(out, a[1]), <<>> >>, s), LAMBDA r : <<r[1][7], Append(a[2], r[2])>>),
           <<1, <<>> >>, old)
RoundTrip ==
  With(DecodeAll, LAMBDA r :
    /\ r[1] = Len(out) + 1
    /\ r[2] = [i \in 1..Len(old) |-> [j \in 1..Len(old[i]) |-> old[i][j][1]]])
=============================================================================
