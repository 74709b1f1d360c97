SPECIFICATION Spec
CONSTANTS
  MaxOps = 3
  Kind = "feat"
PROPERTIES Independent Keeps
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
