CONSTANTS Len0 = 14
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
