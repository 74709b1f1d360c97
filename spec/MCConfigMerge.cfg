SPECIFICATION Spec
CONSTANTS
  RKeys = {"a:x", "y"}
  VKeys = {"x"}
  Values = {"1", "2"}
  SubKeys = {"a"}
  MaxOps = 5
VIEW View
CONSTRAINT Bound
ACTION_CONSTRAINT WriteScript
INVARIANTS StoreAgrees Trimmed ViewFilters
PROPERTIES ReadOnlyFixed Independent MergeUnion ErrorsExact
CHECK_DEADLOCK FALSE
