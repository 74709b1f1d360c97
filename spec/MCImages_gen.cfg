SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  GeoMode = FALSE
  MaxDim = 0
  Steps = {1}
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
