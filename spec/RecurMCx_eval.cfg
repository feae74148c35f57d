CONSTANTS
 Bug = "eval"
 MaxOps = 4
 NEnv = 1
INIT Init
NEXT Next
INVARIANT Sound
