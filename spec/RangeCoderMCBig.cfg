CONSTANTS
 Probs = {0, 1365, 4095, 4096}
 MaxBits = 6
 MaxSeqs = 2
SPECIFICATION Spec
INVARIANTS WellFormed BothHalves RoundTrip
