CONSTANTS Len0 = 16
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
