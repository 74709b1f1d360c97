SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Some3 = FALSE
INVARIANTS Answers NotMore Whole InOrder Order Reason Finality NotEarly
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
