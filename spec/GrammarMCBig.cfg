CONSTANTS
 Symbols = {0, 1, 2, 3, 4, 5}
 TextSymbols = {0, 1, 2}
 MaxLen = 3
 MaxRounds = 2
 MaxFreed = 2
 MaxFrees = 1
SPECIFICATION Spec
INVARIANTS MeaningKept ShortRules Written
