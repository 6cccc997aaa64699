---------------------------- MODULE StreamsTrace ----------------------------
(***************************************************************************)
(* Judges what real streams did.  Operations are [o, a, r, d, e]: a arguments, *)
(* r and d results, e = 1 if the program ended there.                          *)
(*  out: [mode, ops, data, rc, prefix]: o is B (a byte), K (block: first byte,   *)
(*       size), F (flush; r: size of the file), P (getPos), W (write48bits: the   *)
(*       number of the mark and six bytes); data: what the target got             *)
(*  in:  [data, ops, rc]: o is b (bit), y (byte), k (block: wanted size; r:        *)
(*       size, d: data), f (flushBuffer), q (48 bits as six bytes)                 *)
(***************************************************************************)
EXTENDS Streams, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Plain(e) == e.mode = "file"
OutStep(e, a, op) ==       \* a = <<stream, all right>>
  LET s == a[1] IN
  CASE op.o = "B" -> <<PutSeg(s, <<op.a[1], 1>>), a[2]>>
    [] op.o = "K" -> <<PutSeg(s, <<op.a[1], op.a[2]>>), a[2]>>
    [] op.o = "F" -> <<s, a[2] /\ (Plain(e) => op.r = <<SegLen(s.data)>>)>>
    [] op.o = "P" -> <<Mark(s), a[2] /\ (Plain(e) => op.r = <<SegLen(s.data)>>)>>
    [] op.o = "W" -> <<Put48(s, Tail(op.a), op.a[1]), a[2]>>
OutOK(e) ==
  With(FoldLeft(LAMBDA a, op : IF a[2] THEN OutStep(e, a, op) ELSE a, <<OutInit, TRUE>>, e.ops), LAMBDA r :
    /\ r[2] /\ e.rc = 0 /\ e.prefix = 1
    /\ Canon(e.data) = r[1].data)

(* a = <<stream, all right, ended>> *)
Bytes6(s) == [i \in 1..6 |-> ByteOf(s.data, (s.bit \div 8) + i - 1)]
Needs(s, op) == CASE op.o = "b" -> 1 [] op.o = "y" -> 8 [] op.o = "q" -> 48 [] OTHER -> 0
InStep(a, op) ==
  LET s == a[1] IN
  IF ~a[2] \/ a[3] THEN <<s, FALSE, a[3]>>
  ELSE IF ~CanRead(s, Needs(s, op)) THEN <<s, op.e = 1, TRUE>>
  ELSE IF op.e = 1 THEN <<s, FALSE, TRUE>>
  ELSE CASE op.o = "b" -> <<Skip(s, 1), op.r = <<NextBit(s)>>, FALSE>>
         [] op.o = "y" -> <<Skip(s, 8), op.r = <<NextByte(s)>>, FALSE>>
         [] op.o = "q" -> <<Skip(s, 48), op.r = Bytes6(s), FALSE>>
         [] op.o = "f" -> <<Align(s), TRUE, FALSE>>
         [] op.o = "k" -> <<Skip(s, 8 * BlockSize(s, op.a[1])),
                            op.r = <<BlockSize(s, op.a[1])>> /\ Canon(op.d) = Block(s, op.a[1]), FALSE>>
InOK(e) ==
  With(FoldLeft(InStep, <<InInit(Canon(e.data)), TRUE, FALSE>>, e.ops), LAMBDA r :
    r[2] /\ (r[3] <=> e.rc > 0) /\ (~r[3] => e.rc = 0))

Judge(e) == CASE e.ev = "out" -> OutOK(e)
              [] e.ev = "in" -> InOK(e)
              [] OTHER -> FALSE

TraceInit == l = 1
TraceNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ (Judge(Trace[l]) \/ PrintT(<<"REJECT", l>>))
  /\ (l = Len(Trace) => PrintT(<<"DONE", l>>))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
