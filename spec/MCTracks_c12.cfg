SPECIFICATION Spec
CONSTANTS
  MaxOps = 4
  MaxFrame = 2
INVARIANTS AlwaysOrdered Partition OffsetLaws PercentLaws

CHECK_DEADLOCK FALSE
