SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
INVARIANTS Grouping Undoes
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
