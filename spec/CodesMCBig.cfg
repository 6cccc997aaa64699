CONSTANTS
 MaxValue = 3000
 MaxRange = 130
 MaxSym = 9
 MaxFreq = 5
 MaxLeaves = 5
SPECIFICATION Spec
INVARIANTS IntCodes BinCodes SetCodes HuffmanOptimal PrefixFree
