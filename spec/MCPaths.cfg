SPECIFICATION Spec
CONSTANTS
  Alphabet = "/.a"
  MaxLen = 6
  Home = "/h/u"
  UpAtRoot = TRUE
INVARIANTS Means Canonical Rejoins Rejoins2 Partition DirAndName UnixOnce WayBack
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
