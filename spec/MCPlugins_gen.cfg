SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  MaxFiles = 2
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
