CONSTANTS
 Kinds = {"B", "b", "u", "m", "M", "int", "gap"}
 MaxSteps = 6
SPECIFICATION Spec
INVARIANTS Possible InStates Learns PassesBy Forgets
