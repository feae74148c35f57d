CONSTANTS
 MaxT = 100
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
