SPECIFICATION Spec
CONSTANTS
  Set = "a"
  MaxLen = 3
  Unk = "none"
  Store = TRUE
  ValueCounts = 1
INVARIANTS Accounted Unknowns AllGiven Untouched Shadowed Order Progress Final
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
