SPECIFICATION Spec
CONSTANTS
  MaxOps = 5
  Cams = {"k1", "k2"}
  Check = TRUE
  Count = TRUE
  Last = TRUE
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
