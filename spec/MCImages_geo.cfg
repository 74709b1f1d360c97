SPECIFICATION Spec
CONSTANTS
  MaxOps = 0
  GeoMode = TRUE
  MaxDim = 2
  Steps <- StepSet
INVARIANTS EveryPixelOnce CopyIsEqual OneDiffers WriteGeo
CHECK_DEADLOCK FALSE
