SPECIFICATION Spec
CONSTANTS
  MaxOps = 2
  Wide = FALSE
  Wrong = "none"
INVARIANTS Grouping Orthonormal Undoes Cameras Essentials
ACTION_CONSTRAINT WriteScript
CHECK_DEADLOCK FALSE
