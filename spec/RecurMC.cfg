CONSTANTS
 Bug = "none"
 MaxOps = 9
 NEnv = 2
INIT Init
NEXT Next
INVARIANT Sound
