SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2, 3}
  Modules = {"a", "b"}
  Lock = TRUE
  FlagLast = TRUE
INVARIANTS AtMostOnce OneLoader NobodyEarly
PROPERTIES AllReturn
CHECK_DEADLOCK FALSE
