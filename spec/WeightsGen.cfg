CONSTANT NR = 7
INIT Init
NEXT Next
INVARIANT Emit
