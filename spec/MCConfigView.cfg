SPECIFICATION Spec
CONSTANTS
  RKeys = {"a:x", "_global:g", "a:b:x"}
  VKeys = {"x", "_global:g"}
  Values = {"1"}
  SubKeys = {"a", "b"}
  MaxOps = 5
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT WriteScript
INVARIANTS StoreAgrees Trimmed ViewFilters
PROPERTIES ReadOnlyFixed Independent MergeUnion ErrorsExact
CHECK_DEADLOCK FALSE
