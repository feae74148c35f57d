CONSTANTS
 MaxOps = 12
 D = 4
 NBig = 8
INIT Init
NEXT Next
INVARIANT Emit
CHECK_DEADLOCK FALSE
