CONSTANTS MaxOps = 90
 NS = 4
INIT Init
NEXT Next
INVARIANT Emit
