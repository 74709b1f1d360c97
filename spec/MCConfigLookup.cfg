SPECIFICATION Spec
ACTION_CONSTRAINT WriteScript
INVARIANTS FirstFile Merged
CHECK_DEADLOCK FALSE
