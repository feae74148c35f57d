CONSTANTS MaxOps = 26
 Mode = "single"
 MidStop = TRUE
 NS = 4
INIT Init
NEXT Next
INVARIANT Emit
