SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  MaxFiles = 2
INVARIANTS OnlyValid
PROPERTIES Complete FilterRestricts Monotone OnceOnly
CHECK_DEADLOCK FALSE
