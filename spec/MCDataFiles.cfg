SPECIFICATION Spec
CONSTANTS
  MaxCols = 3
  MaxStates = 2
INVARIANTS Exactly WriteScript
CHECK_DEADLOCK FALSE
