SPECIFICATION Spec
CONSTANTS
  MaxLen = 4
  MaxText = 3
  Alphabet = "ab*(|)?"
INVARIANTS Right Complete Width
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
