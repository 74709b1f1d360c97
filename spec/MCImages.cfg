SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  GeoMode = FALSE
  MaxDim = 0
  Steps = {1}
INVARIANTS Valid Sharing KeptAlive
PROPERTIES NoOther CopyEqual
CHECK_DEADLOCK FALSE
