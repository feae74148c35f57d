CONSTANTS Steps = {4, 9}
 Offs = {0, 3}
 MaxLens = {0, 2}
 Freqs = {0, 3}
 Hooks = {1, 2}
 Succs <- NoOrOne
 Crash = {"act", "step", "hook", "stop", "eval", "reset", "kbd_step", "kbd_hook", "kbd_act"}
 NEnvs = {1}
 W = 3
INIT Init
NEXT Next
INVARIANT Emit
