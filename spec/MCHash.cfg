SPECIFICATION Spec
CONSTANTS
  Kind = "mmap"
  Mode = "mod3"
  Keys = {0, 1, 2, 3, 4}
  MaxOps = 4
  Sizes <- Primes
  AfterEqual = TRUE
  Grows = TRUE
INVARIANTS Holds InPlace Ranges OneEach
VIEW View
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
