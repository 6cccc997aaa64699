CONSTANTS
 BufferSize = 3
 MaxOps = 6
SPECIFICATION Spec
INVARIANTS Refines Complete BufferBound MarksInFile
