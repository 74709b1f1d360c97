SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Nest = TRUE
INVARIANTS CheckedMeansComplete Reproduces UntouchedOrNamed GivenOwn WriteNest
CHECK_DEADLOCK FALSE
