CONSTANTS
 BufferSize = 3
 Length = 7
 MaxOps = 14
SPECIFICATION Spec
INVARIANTS SameResult Position
