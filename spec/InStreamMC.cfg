CONSTANTS
 BufferSize = 3
 Length = 5
 MaxOps = 9
SPECIFICATION Spec
INVARIANTS SameResult Position
