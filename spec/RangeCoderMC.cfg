CONSTANTS
 Probs = {0, 1, 1365, 4095, 4096}
 MaxBits = 4
 MaxSeqs = 2
SPECIFICATION Spec
INVARIANTS WellFormed BothHalves RoundTrip
