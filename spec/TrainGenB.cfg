CONSTANTS Steps = {2, 4}
 Offs = {0, 1}
 MaxLens = {0, 1, 2}
 Freqs = {0, 2, 3}
 Hooks = {1}
 Succs <- NoOrOne
 Crash = {"none"}
 NEnvs = {1, 2}
 W = 0
INIT Init
NEXT Next
INVARIANT Emit
