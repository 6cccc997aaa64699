----------------------------- MODULE InStreamMC -----------------------------
(***************************************************************************)
(* The buffered input stream: a small buffer filled by reads that may be       *)
(* short, a 16-bit register of which some bits are left to be read.            *)
(***************************************************************************)
EXTENDS Streams
CONSTANTS BufferSize, Length, MaxOps

VARIABLES abs, src,    \* number of bytes taken from the source
          buf,         \* bytes in the buffer
          reg, left,   \* register and how many of its bits are unread
          got, want,   \* result of the last operation, and that of Streams
          ops
vars == <<abs, src, buf, reg, left, got, want, ops>>
Data == << <<167, Length>> >>

Init == /\ abs = InInit(Data) /\ src = 0 /\ buf = <<>> /\ reg = 0 /\ left = 0
        /\ got = <<>> /\ want = <<>> /\ ops = 0

SrcByte(i) == (167 + i) % 256
(* The buffer is filled when it is empty, by a read of 1..BufferSize bytes: all the ways
   of the buffer to get filled while n bytes are fetched.  Results: <<bytes, buf, src>>;
   there are fewer than n bytes if the data ends. *)
RECURSIVE Fetch(_, _, _)
Fetch(b, s, n) ==
  IF n = 0 THEN {<< <<>>, b, s>>}
  ELSE IF b = <<>>
  THEN IF s = Length THEN {<< <<>>, b, s>>}
       ELSE UNION {Fetch([i \in 1..k |-> SrcByte(s + i - 1)], s + k, n) : k \in 1..Min2(BufferSize, Length - s)}
  ELSE {<< <<Head(b)>> \o r[1], r[2], r[3]>> : r \in Fetch(Tail(b), s, n - 1)}

Op == ops < MaxOps /\ ops' = ops + 1
ReadBit ==
  /\ Op /\ CanRead(abs, 1)
  /\ want' = <<NextBit(abs)>> /\ abs' = Skip(abs, 1)
  /\ IF left > 0
     THEN got' = <<(reg \div Pow2(left - 1)) % 2>> /\ left' = left - 1 /\ UNCHANGED <<src, buf, reg>>
     ELSE \E r \in Fetch(buf, src, 1) :
            /\ reg' = r[1][1] /\ left' = 7 /\ buf' = r[2] /\ src' = r[3]
            /\ got' = <<r[1][1] \div 128>>
ReadByte ==
  /\ Op /\ CanRead(abs, 8)
  /\ want' = <<NextByte(abs)>> /\ abs' = Skip(abs, 8)
  /\ \E r \in Fetch(buf, src, 1) :
       /\ reg' = (reg * 256 + r[1][1]) % 65536
       /\ buf' = r[2] /\ src' = r[3] /\ UNCHANGED left
       /\ got' = <<(reg' \div Pow2(left)) % 256>>
FlushBits == Op /\ abs' = Align(abs) /\ left' = 0 /\ want' = <<>> /\ got' = <<>> /\ UNCHANGED <<src, buf, reg>>
ReadBlock == \E n \in 0..4 :
  /\ Op /\ Aligned(abs)
  /\ want' = <<BlockSize(abs, n), Block(abs, n)>> /\ abs' = Skip(abs, 8 * BlockSize(abs, n))
  /\ \E r \in Fetch(buf, src, n) :
       got' = <<Len(r[1]), Canon([i \in 1..Len(r[1]) |-> <<r[1][i], 1>>])>> /\ buf' = r[2] /\ src' = r[3]
  /\ UNCHANGED <<reg, left>>
Next == ReadBit \/ ReadByte \/ FlushBits \/ ReadBlock
Spec == Init /\ [][Next]_vars

SameResult == got = want
(* the position follows from the implementation's state *)
Position == abs.bit = 8 * (src - Len(buf)) - left
=============================================================================
