SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  Bytes = {0, 3, 64, 127, 128, 255}
INVARIANTS Undone Std
PROPERTIES Ends
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
