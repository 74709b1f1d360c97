SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
ACTION_CONSTRAINT WriteScript
INVARIANTS Identity Threshold
PROPERTIES Stable LevelsIndependent
CHECK_DEADLOCK FALSE
