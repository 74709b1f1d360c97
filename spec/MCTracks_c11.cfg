SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxFrame = 2
INVARIANTS AlwaysOrdered FindsStates Bounds
PROPERTIES Grows
CHECK_DEADLOCK FALSE
