CONSTANTS NEnvs = 2
 D = 50
 W = 6
 Extra = {"reload", "save", "sample"}
INIT Init
NEXT Next
INVARIANT Emit
