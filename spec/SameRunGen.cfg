CONSTANTS
 Runs = 3
INIT Init
NEXT Next
INVARIANT Emit
