CONSTANTS
 Kinds = {"B", "b", "u", "m", "M", "int", "gap"}
 MaxSteps = 9
SPECIFICATION Spec
INVARIANTS Possible InStates Learns PassesBy Forgets
