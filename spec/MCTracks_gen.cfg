SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxFrame = 2
ACTION_CONSTRAINT WriteScript


CHECK_DEADLOCK FALSE
