------------------------------ MODULE StreamsMC ------------------------------
(***************************************************************************)
(* The buffered streams (RawOutStream, RawInStream) with a tiny buffer,        *)
(* refining Streams.  Output: a buffer in front of a file that is written at    *)
(* its current position; if the target cannot seek, what comes after the first   *)
(* getPos is collected to a temporary file and copied to the target at the end.  *)
(* Input: a buffer filled by reads of any size (a pipe delivers what it has).    *)
(* The invariants say that whatever the calls, the user sees Streams.            *)
(***************************************************************************)
EXTENDS Streams
CONSTANTS BufferSize, MaxOps

VARIABLES abs,        \* the output stream of Streams
          buf, file,  \* buffer; current file
          sent,       \* what has gone to the target for good (if not the file)
          tmp,        \* is the file a temporary one
          seekable,
          next,       \* next byte to be written
          ops, closed
vars == <<abs, buf, file, sent, tmp, seekable, next, ops, closed>>

Init == /\ abs = OutInit /\ buf = <<>> /\ file = <<>> /\ sent = <<>> /\ tmp = FALSE
        /\ seekable \in BOOLEAN /\ next = 0 /\ ops = 0 /\ closed = FALSE

Op == ops < MaxOps /\ ~closed /\ ops' = ops + 1 /\ UNCHANGED <<seekable, closed>>
(* to the current file *)
Out(f, s, d) == IF seekable \/ tmp THEN <<Cat(f, d), s>> ELSE <<f, Cat(s, d)>>

WriteByte ==
  /\ Op
  /\ abs' = PutSeg(abs, <<next, 1>>)
  /\ next' = (next + 2) % 256
  /\ LET b == Cat(buf, << <<next, 1>> >>)
     IN IF SegLen(b) = BufferSize
        THEN LET r == Out(file, sent, b) IN buf' = <<>> /\ file' = r[1] /\ sent' = r[2]
        ELSE buf' = b /\ UNCHANGED <<file, sent>>
  /\ UNCHANGED tmp
WriteBlock == \E n \in 0..(BufferSize + 1) :
  /\ Op
  /\ abs' = PutSeg(abs, <<next, n>>)
  /\ next' = (next + n + 1) % 256
  /\ IF SegLen(buf) + n < BufferSize
     THEN buf' = Cat(buf, << <<next, n>> >>) /\ UNCHANGED <<file, sent>>
     ELSE LET r == Out(file, sent, Cat(buf, << <<next, n>> >>))
          IN buf' = <<>> /\ file' = r[1] /\ sent' = r[2]
  /\ UNCHANGED tmp
FlushTo == Out(file, sent, buf)
Flush == /\ Op /\ buf' = <<>> /\ file' = FlushTo[1] /\ sent' = FlushTo[2]
         /\ UNCHANGED <<abs, tmp, next>>
GetPos == /\ Op /\ buf' = <<>> /\ file' = FlushTo[1] /\ sent' = FlushTo[2]
          /\ tmp' = (tmp \/ ~seekable)
          /\ abs' = Mark(abs) /\ UNCHANGED next
(* position in the current file of a mark *)
Place(k) == abs.marks[k] - SegLen(sent)
Write48 == \E k \in 1..Len(abs.marks) :
  LET v == [i \in 1..6 |-> 200 + i] IN
  /\ CanPut48(abs, k)
  /\ Op
  /\ abs' = Put48(abs, v, k)
  /\ buf' = <<>>
  /\ file' = Patch(FlushTo[1], Place(k), [i \in 1..6 |-> <<v[i], 1>>])
  /\ sent' = FlushTo[2]
  /\ UNCHANGED <<tmp, next>>
Close == /\ ~closed /\ closed' = TRUE
         /\ buf' = <<>>
         /\ IF tmp THEN sent' = Cat(sent, FlushTo[1]) /\ file' = <<>>
            ELSE file' = FlushTo[1] /\ sent' = FlushTo[2]
         /\ UNCHANGED <<abs, tmp, seekable, next, ops>>
Next == WriteByte \/ WriteBlock \/ Flush \/ GetPos \/ Write48 \/ Close
Spec == Init /\ [][Next]_vars

(* nothing is lost, doubled or out of order, now or in the end *)
Refines == Cat(Cat(sent, file), buf) = abs.data
Complete == closed => buf = <<>> /\ (IF seekable THEN sent = <<>> /\ file = abs.data ELSE file = <<>> /\ sent = abs.data)
BufferBound == SegLen(buf) < BufferSize
(* marks are never in what has gone for good *)
MarksInFile == \A k \in 1..Len(abs.marks) : ~closed => Place(k) >= 0
=============================================================================
