CONSTANTS NUser = 20
 NBase = 60
INIT Init
NEXT Next
INVARIANT Emit
