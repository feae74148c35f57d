CONSTANTS
 Bug = "none"
 MaxOps = 12
 NEnv = 2
INIT Init
NEXT Next
INVARIANT Sound
