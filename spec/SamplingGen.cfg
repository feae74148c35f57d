CONSTANT Ms = {1, 2, 3, 4, 6, 9, 16, 31, 40}
INIT Init
NEXT Next
INVARIANT Emit
