SPECIFICATION Spec
CONSTANTS
  MaxLen = 5
INVARIANTS Right
PROPERTIES Ends
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
