CONSTANTS Steps = {1, 2, 3, 5}
 Eps = {1, 2, 3}
 MaxLens = {0, 1, 2}
 NEnvs = {1, 2}
 Need = 5
 W = 0
INIT Init
NEXT Next
INVARIANT Emit
