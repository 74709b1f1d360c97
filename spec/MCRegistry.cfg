SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Nest = FALSE
PROPERTIES LatestWins
ACTION_CONSTRAINT WriteHist
CHECK_DEADLOCK FALSE
