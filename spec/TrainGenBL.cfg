CONSTANTS Steps = {9, 25}
 Offs = {0, 4}
 MaxLens = {0, 1, 3, 5}
 Freqs = {0, 1, 3, 7}
 Hooks = {0, 1, 2}
 Succs <- SuccAll
 Crash = {"none"}
 NEnvs = {1, 2, 3, 4}
 W = 4
INIT Init
NEXT Next
INVARIANT Emit
