SPECIFICATION Spec
CONSTANTS
  Objs = {1, 2}
  N = 2
  W = 1
  Cap = 2
  MayExpire = TRUE
  MayKill = TRUE
  Bug = ""
INVARIANTS Room NotStuck OwnIds Clean Complete NoMore
PROPERTY Ends
