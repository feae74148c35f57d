CONSTANTS MaxOps = 11
 Mode = "batch"
 MidStop = FALSE
 NS = 4
INIT Init
NEXT Next
INVARIANT Emit
