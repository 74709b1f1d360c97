SPECIFICATION Spec
CONSTANTS
  MaxOps = 6
INVARIANTS Agrees ActiveExactly
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
