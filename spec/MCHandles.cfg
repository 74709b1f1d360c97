SPECIFICATION Spec
CONSTANTS
  MaxOps = 7
  Cams = {"k1", "k2"}
  Check = TRUE
  Count = TRUE
  Last = TRUE
INVARIANTS UsableIffOwed FreedIffUnreachable
PROPERTIES StaysFreed
CHECK_DEADLOCK FALSE
