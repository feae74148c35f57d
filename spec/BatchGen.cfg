CONSTANTS MaxLen = 2
 MaxWin = 1
 Rs = {0, 1, 3}
INIT Init
NEXT Next
INVARIANT Emit
