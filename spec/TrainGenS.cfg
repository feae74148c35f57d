CONSTANTS Steps = {1, 2, 3}
 Offs = {0, 1}
 MaxLens = {0, 1, 2}
 Freqs = {0, 1, 2}
 Hooks = {1}
 Succs <- NoOrOne
 Crash = {"none"}
 NEnvs = {1}
 W = 0
INIT Init
NEXT Next
INVARIANT Emit
