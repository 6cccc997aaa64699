SPECIFICATION Spec
INVARIANT Decoded
CHECK_DEADLOCK FALSE
CONSTANTS
  Letters = {0, 97, 255}
  MaxText = 4
  Coders = {"H", "B", "m"}
  Ws = {0, 2}
