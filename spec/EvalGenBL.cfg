CONSTANTS Steps = {4, 9, 17}
 Eps = {1, 3, 6, 9}
 MaxLens = {0, 2, 5}
 NEnvs = {2, 3, 4}
 Need = 40
 W = 6
INIT Init
NEXT Next
INVARIANT Emit
