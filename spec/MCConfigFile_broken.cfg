SPECIFICATION Spec
CONSTANTS
  Alphabet = "broken"
  MaxLines = 4
ACTION_CONSTRAINT WriteScript
INVARIANTS IncludeIsInline LastWins BadRejected UnbalancedRejected GoodAccepted NothingOnError ExpandLaws
CHECK_DEADLOCK FALSE
