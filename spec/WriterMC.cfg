SPECIFICATION Spec
INVARIANT Decoded
CHECK_DEADLOCK FALSE
CONSTANTS
  Letters = {0, 255}
  MaxText = 3
  Coders = {"H", "B", "m"}
  Ws = {0, 2}
