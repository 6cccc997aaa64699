----------------------------- MODULE RangeCoder -----------------------------
(***************************************************************************)
(* The binary range coder (BitCoders), on 32-bit words held as two 16-bit  *)
(* limbs.  Probabilities are numbers 0..4096 (probability of a 1-bit, in   *)
(* 1/4096:ths).                                                            *)
(***************************************************************************)
EXTENDS Bytes

W16 == 65536

(* comparison and arithmetic on words <<hi, lo>> *)
WLeq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

(* split = low + round(r * p / 4096), where r = high - low - 1.
   r*p/4096 = (r>>12)*p + ((r&4095)*p + 2048)>>12 *)
Split(lH, lL, hH, hL, p) ==
  LET d0 == hL - lL - 1
      b1 == IF d0 < 0 THEN 1 ELSE 0
      rL == d0 + b1 * W16
      rH == hH - lH - b1
      a  == rH * 16 + (rL \div 4096)             \* r >> 12 , < 2^20
      aH == a \div 1024
      aL == a % 1024
      t  == aH * p                               \* * 1024
      u  == aL * p
      v  == ((rL % 4096) * p + 2048) \div 4096
      \* total = t*1024 + u + v
      lo == (t % 64) * 1024 + u + v + lL
      hi == (t \div 64) + lH + (lo \div W16)
  IN <<hi, lo % W16>>

(***************************************************************************)
(* Encoder: st = <<lowH, lowL, highH, highL, out>>                         *)
(***************************************************************************)
EncInit == <<0, 0, 65535, 65535, <<>> >>

RECURSIVE EncNorm(_)
EncNorm(s) ==
  IF (s[1] \div 256) # (s[3] \div 256) THEN s
  ELSE EncNorm(<< (s[1] % 256) * 256 + (s[2] \div 256),
                  (s[2] % 256) * 256,
                  (s[3] % 256) * 256 + (s[4] \div 256),
                  (s[4] % 256) * 256 + 255,
                  Append(s[5], s[1] \div 256) >>)

EncStep(s, bit, p) ==
  LET sp == Split(s[1], s[2], s[3], s[4], p)
      s2 == IF bit = 1 THEN <<s[1], s[2], sp[1], sp[2], s[5]>>
            ELSE IF sp[2] = 65535 THEN <<sp[1] + 1, 0, s[3], s[4], s[5]>>
            ELSE <<sp[1], sp[2] + 1, s[3], s[4], s[5]>>
  IN EncNorm(s2)

EncFinish(s) == s[5] \o << s[1] \div 256, 255, 255, 255 >>

(* bits and probabilities -> bytes *)
Encode(pairs) ==
  EncFinish(FoldLeft(LAMBDA s, x : EncStep(s, x[1], x[2]), EncInit, pairs))

(***************************************************************************)
(* Decoder: st = <<lowH, lowL, highH, highL, nextH, nextL, pos>> where pos *)
(* is the position in d of the next byte to be read                        *)
(***************************************************************************)
DecInit(d, pos) ==
  <<0, 0, 65535, 65535,
    ByteAt(d, pos) * 256 + ByteAt(d, pos + 1),
    ByteAt(d, pos + 2) * 256 + ByteAt(d, pos + 3), pos + 4>>

RECURSIVE DecNorm(_, _)
DecNorm(d, s) ==
  IF (s[1] \div 256) # (s[3] \div 256) THEN s
  ELSE DecNorm(d,
           << (s[1] % 256) * 256 + (s[2] \div 256),
              (s[2] % 256) * 256,
              (s[3] % 256) * 256 + (s[4] \div 256),
              (s[4] % 256) * 256 + 255,
              (s[5] % 256) * 256 + (s[6] \div 256),
              (s[6] % 256) * 256 + ByteAt(d, s[7]),
              s[7] + 1 >>)

DecBit(s, p) ==
  LET sp == Split(s[1], s[2], s[3], s[4], p)
  IN IF s[5] < sp[1] \/ (s[5] = sp[1] /\ s[6] <= sp[2]) THEN <<1, sp[1], sp[2]>>
     ELSE <<0, sp[1], sp[2]>>

(* <<bit, new state>> *)
DecStep(d, s, p) ==
  LET sp == Split(s[1], s[2], s[3], s[4], p)
      one == s[5] < sp[1] \/ (s[5] = sp[1] /\ s[6] <= sp[2])
  IN IF one THEN <<1, DecNorm(d, <<s[1], s[2], sp[1], sp[2], s[5], s[6], s[7]>>)>>
     ELSE IF sp[2] = 65535
          THEN <<0, DecNorm(d, <<sp[1] + 1, 0, s[3], s[4], s[5], s[6], s[7]>>)>>
          ELSE <<0, DecNorm(d, <<sp[1], sp[2] + 1, s[3], s[4], s[5], s[6], s[7]>>)>>
=============================================================================
