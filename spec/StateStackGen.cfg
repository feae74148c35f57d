CONSTANTS
 MaxOps = 30
 Ids = 3
INIT Init
NEXT Next
INVARIANT Emit
