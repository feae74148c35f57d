CONSTANTS NEnvs = 1
 D = 8
 W = 0
 Extra = {}
INIT Init
NEXT Next
INVARIANT Emit
