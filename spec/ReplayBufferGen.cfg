CONSTANTS NEnvs = 2
 D = 5
 W = 0
 Extra = {}
INIT Init
NEXT Next
INVARIANT Emit
