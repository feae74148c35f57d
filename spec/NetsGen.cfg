CONSTANTS Len0 = 7
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
