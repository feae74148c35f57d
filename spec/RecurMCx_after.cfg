CONSTANTS
 Bug = "after"
 MaxOps = 6
 NEnv = 2
INIT Init
NEXT Next
INVARIANT Sound
