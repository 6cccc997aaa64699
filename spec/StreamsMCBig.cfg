CONSTANTS
 BufferSize = 3
 MaxOps = 8
SPECIFICATION Spec
INVARIANTS Refines Complete BufferBound MarksInFile
