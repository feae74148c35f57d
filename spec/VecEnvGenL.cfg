CONSTANTS L = 40
INIT Init
NEXT Next
INVARIANT Emit
