CONSTANTS
 N = 4
 MaxFreq = 2
 MaxOps = 4
SPECIFICATION Spec
INVARIANTS Refines Permutation
