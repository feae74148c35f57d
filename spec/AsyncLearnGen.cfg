CONSTANTS MaxOps = 34
 NS = 4
INIT Init
NEXT Next
INVARIANT Emit
