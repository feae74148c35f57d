CONSTANTS NEnvs = 3
 D = 60
 W = 8
 Extra = {}
INIT Init
NEXT Next
INVARIANT Emit
