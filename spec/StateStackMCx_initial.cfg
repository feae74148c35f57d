CONSTANTS
 Bug = "initial"
 MaxOps = 5
INIT Init
NEXT Next
INVARIANT Sound
