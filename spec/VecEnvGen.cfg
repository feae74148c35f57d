CONSTANTS L = 14
INIT Init
NEXT Next
INVARIANT Emit
