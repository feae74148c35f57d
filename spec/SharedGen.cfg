CONSTANTS
 MaxOps = 16
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
