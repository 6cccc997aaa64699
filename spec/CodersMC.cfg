SPECIFICATION Spec
CONSTANTS
  Letters = {0, 97, 255}
  MaxText = 2
  Kinds = {"B", "H", "m", "M"}
  Objects = {1, 2}
  Steps = 2
INVARIANT InStep
PROPERTY Apart
