CONSTANTS NEnvs = 2
 D = 4
 W = 0
 Extra = {"reload", "save"}
INIT Init
NEXT Next
INVARIANT Emit
