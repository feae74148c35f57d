CONSTANTS Steps = {1, 2, 3, 4}
 Eps = {1, 2, 3}
 MaxLens = {0, 1, 2}
 NEnvs = {1}
 Need = 4
 W = 0
INIT Init
NEXT Next
INVARIANT Emit
