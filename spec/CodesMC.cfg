CONSTANTS
 MaxValue = 300
 MaxRange = 40
 MaxSym = 6
 MaxFreq = 4
 MaxLeaves = 5
SPECIFICATION Spec
INVARIANTS IntCodes BinCodes SetCodes HuffmanOptimal PrefixFree
