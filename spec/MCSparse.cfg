SPECIFICATION Spec
CONSTANTS
  Outer = 3
  Inner = 3
  SkipEmpty = TRUE
INVARIANTS EachOnce Prefix
PROPERTIES Ends
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
