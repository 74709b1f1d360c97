SPECIFICATION Spec
CONSTANTS
  Locked = TRUE
  Threads = {1, 2, 3}
  NMsg = 2
  NLines = 2
INVARIANTS Whole InOrder
CHECK_DEADLOCK FALSE
