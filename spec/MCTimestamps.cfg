SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
INVARIANTS Valid
PROPERTIES LastWins
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
