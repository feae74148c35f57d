CONSTANTS MaxLen = 4
 MaxWin = 6
 Rs = {0, 1, 2, 5, 7}
INIT Init
NEXT Next
INVARIANT Emit
