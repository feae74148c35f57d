CONSTANTS NUser = 24
 NBase = 40
INIT Init
NEXT Next
INVARIANT Emit
