SPECIFICATION Spec
CONSTANTS
  Alphabet = "plain"
  MaxLines = 4
ACTION_CONSTRAINT WriteScript
INVARIANTS IncludeIsInline LastWins BadRejected UnbalancedRejected GoodAccepted NothingOnError ExpandLaws
CHECK_DEADLOCK FALSE
