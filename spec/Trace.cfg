INIT TInit
NEXT TNext
INVARIANT TInv
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
