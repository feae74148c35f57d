CONSTANTS
 Bug = "none"
 MaxOps = 7
 NEnv = 3
INIT Init
NEXT Next
INVARIANT Sound
