CONSTANTS Steps = {12, 30}
 Offs = {0, 7}
 MaxLens = {0, 1, 3, 5}
 Freqs = {0, 1, 3, 7}
 Hooks = {0, 1, 2}
 Succs <- SuccAll
 Crash = {"none"}
 NEnvs = {1}
 W = 4
INIT Init
NEXT Next
INVARIANT Emit
