SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Perms = {0, 192, 320}
  ThroughLinks = FALSE
INVARIANTS Tree Makes Removes Gone Copied Kept CopiedTree
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
