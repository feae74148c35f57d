CONSTANTS MaxOps = 78
 Mode = "single"
 MidStop = FALSE
 NS = 4
INIT Init
NEXT Next
INVARIANT Emit
