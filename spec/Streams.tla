------------------------------- MODULE Streams -------------------------------
(***************************************************************************)
(* Output and input streams, as their users see them.                        *)
(*                                                                          *)
(* Data is held as a sequence of segments <<b, n>>: n bytes b, b+1, ...       *)
(* (modulo 256), so that long data is cheap.  In canonical form no segment     *)
(* continues the one before it.                                              *)
(***************************************************************************)
EXTENDS Bytes

SegEnd(s) == (s[1] + s[2]) % 256            \* the byte that would continue it
Join(d, s) ==
  IF s[2] = 0 THEN d
  ELSE IF d = <<>> THEN <<s>>
  ELSE LET t == d[Len(d)] IN
       IF SegEnd(t) = s[1] THEN [d EXCEPT ![Len(d)] = <<t[1], t[2] + s[2]>>] ELSE Append(d, s)
Canon(d) == FoldLeft(Join, <<>>, d)
SegLen(d) == FoldLeft(LAMBDA a, s : a + s[2], 0, d)

(* bytes from..to-1 (0-based) *)
Cut(d, from, to) ==
  Canon(FoldLeft(LAMBDA a, s :
     LET lo == Max2(from, a[1]) hi == Min2(to, a[1] + s[2])
     IN <<a[1] + s[2],
          IF hi > lo THEN Append(a[2], <<(s[1] + lo - a[1]) % 256, hi - lo>>) ELSE a[2]>>,
     <<0, <<>> >>, d)[2])
Cat(a, b) == Canon(a \o b)
Patch(d, pos, b) == Cat(Cat(Cut(d, 0, pos), b), Cut(d, pos + SegLen(b), SegLen(d)))
ByteOf(d, i) ==         \* i: 0-based, inside
  LET c == Cut(d, i, i + 1) IN c[1][1]

(***************************************************************************)
(* Output: what has been written, and the positions asked for                *)
(***************************************************************************)
OutInit == [data |-> <<>>, marks |-> <<>>]
PutSeg(s, seg) == [s EXCEPT !.data = Join(@, seg)]
Mark(s) == [s EXCEPT !.marks = Append(@, SegLen(s.data))]
(* v: six bytes, most significant first; over what is at the k:th mark *)
Put48(s, v, k) == [s EXCEPT !.data = Patch(@, s.marks[k], [i \in 1..6 |-> <<v[i], 1>>])]
CanPut48(s, k) == k \in 1..Len(s.marks) /\ s.marks[k] + 6 <= SegLen(s.data)

(***************************************************************************)
(* Input: the data and the bit position                                      *)
(***************************************************************************)
InInit(d) == [data |-> d, bit |-> 0]
InEnd(s) == 8 * SegLen(s.data)
Aligned(s) == s.bit % 8 = 0
BitIn(d, k) == (ByteOf(d, k \div 8) \div Pow2(7 - (k % 8))) % 2
CanRead(s, n) == s.bit + n <= InEnd(s)           \* n bits
NextBit(s) == BitIn(s.data, s.bit)
NextByte(s) ==
  LET k == s.bit \div 8 o == s.bit % 8
  IN IF o = 0 THEN ByteOf(s.data, k)
     ELSE ((ByteOf(s.data, k) * Pow2(o)) % 256) + (ByteOf(s.data, k + 1) \div Pow2(8 - o))
Skip(s, n) == [s EXCEPT !.bit = @ + n]
Align(s) == [s EXCEPT !.bit = ((@ + 7) \div 8) * 8]
BlockSize(s, n) == Min2(n, SegLen(s.data) - (s.bit \div 8))
Block(s, n) == Cut(s.data, s.bit \div 8, (s.bit \div 8) + BlockSize(s, n))
=============================================================================
