CONSTANTS
 MaxOps = 24
 MaxHist = 6
 Ids = 3
INIT Init
NEXT Next
INVARIANT Emit
