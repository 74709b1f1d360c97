SPECIFICATION Spec
CONSTANTS
  Shared = FALSE
  Readers = {1, 2, 3}
  NTok = 4
INVARIANT Alone
CHECK_DEADLOCK FALSE
