SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  N = 3
INVARIANTS Refines
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
