CONSTANTS
 N = 4
 MaxFreq = 3
 MaxOps = 6
SPECIFICATION Spec
INVARIANTS Refines Permutation
