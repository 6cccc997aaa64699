------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Vocabulary shared by all modules: bytes, bit strings, 32-bit words as   *)
(* pairs of 16-bit limbs (TLC's integers are 32-bit signed), and the       *)
(* "packed integer" representation used all over the archive format.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, TLC

Byte == 0..255
Bit  == {0, 1}

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

(* 2^k, k in 0..30 *)
Pow2(k) == CASE k < 8 -> <<1,2,4,8,16,32,64,128>>[k + 1]
             [] OTHER -> 2^k

RECURSIVE LogFloor(_)
LogFloor(n) == IF n < 2 THEN 0 ELSE 1 + LogFloor(n \div 2)
LogCeil(n)  == IF n < 2 THEN 0 ELSE LogFloor(n - 1) + 1

(* The k-bit big-endian representation of v. *)
BitsOf(v, k) == [i \in 1..k |-> (v \div Pow2(k - i)) % 2]
(* and its inverse *)
ValueOf(bits) == FoldLeft(LAMBDA a, b : 2 * a + b, 0, bits)

Repeat(x, n) == [i \in 1..n |-> x]
Zeros(k) == [i \in 1..k |-> 0]
Ones(k)  == [i \in 1..k |-> 1]

(* Pads with zero bits to a whole number of bytes; packs 8 bits per byte,
   most significant bit first. *)
PadBits(bits) == bits \o Zeros((8 - (Len(bits) % 8)) % 8)
BytesOfBits(bits) ==
  LET pb == PadBits(bits)
  IN  [i \in 1..(Len(pb) \div 8) |->
         LET o == 8 * (i - 1)
         IN pb[o+1]*128 + pb[o+2]*64 + pb[o+3]*32 + pb[o+4]*16
            + pb[o+5]*8 + pb[o+6]*4 + pb[o+7]*2 + pb[o+8]]

(* Total reads: what lies beyond the end of the data reads as 0.  Parsers
   return the position they got to, and a position beyond Len(d)+1 means
   that the data was too short. *)
ByteAt(d, i) == IF i >= 1 /\ i <= Len(d) THEN d[i] ELSE 0

(* Bit number k (0-based, MSB first) of a byte sequence *)
BitAt(d, k) == (ByteAt(d, (k \div 8) + 1) \div Pow2(7 - (k % 8))) % 2

(* n bits starting from bit k, as a number *)
RECURSIVE BitsAt(_, _, _)
BitsAt(d, k, n) == IF n = 0 THEN 0
                   ELSE 2 * BitsAt(d, k, n - 1) + BitAt(d, k + n - 1)

(***************************************************************************)
(* Packed integers: 7 bits a byte, least significant group first, 0x80    *)
(* set in all but the last byte.                                           *)
(***************************************************************************)
RECURSIVE PackInt(_)
PackInt(n) == IF n < 128 THEN <<n>>
              ELSE <<128 + (n % 128)>> \o PackInt(n \div 128)

RECURSIVE UnpackFrom(_, _, _, _)
(* value of the packed integer at position i of d; at most 5 groups *)
UnpackFrom(d, i, shift, acc) ==
  LET b == ByteAt(d, i)
      a == IF shift >= 31 THEN acc
           ELSE IF shift = 28 THEN acc + ((b % 8) * Pow2(28))
           ELSE acc + ((b % 128) * Pow2(shift))
  IN IF b >= 128 /\ i < Len(d) + 2 THEN UnpackFrom(d, i + 1, shift + 7, a)
     ELSE [val |-> a, next |-> i + 1]
Unpack(d, i) == UnpackFrom(d, i, 0, 0)

(***************************************************************************)
(* Binds a value (TLC evaluates v once; a LET may be evaluated again and     *)
(* again inside a fold; x = x makes it compute the values of functions)       *)
(***************************************************************************)
With(v, Body(_)) == CHOOSE r \in {IF x = x THEN Body(x) ELSE Body(x) : x \in {v}} : TRUE

(* The same sequence as an explicit tuple *)
Force(s) == Tail(<<0>> \o s)

(* A sequence of n values from pairs <<index, value>>, 0 where there is none *)
FromPairs(n, pairs) ==
  With(Repeat(0, n), LAMBDA z :
    FoldLeft(LAMBDA a, p : IF p[1] \in 1..n THEN [a EXCEPT ![p[1]] = p[2]] ELSE a, Force(z), pairs))

(***************************************************************************)
(* Compact concatenation of a sequence of sequences                        *)
(***************************************************************************)
Concat(ss) == FlattenSeq(ss)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
(* indices i of s with P(s[i]), ascending *)
Slice(s, from, n) == SubSeq(s, from, from + n - 1)
=============================================================================
