CONSTANTS Steps = {5, 12, 20}
 Eps = {1, 4, 7}
 MaxLens = {0, 1, 3, 5}
 NEnvs = {1}
 Need = 25
 W = 6
INIT Init
NEXT Next
INVARIANT Emit
