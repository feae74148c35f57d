CONSTANTS
 Bug = "none"
 MaxOps = 6
INIT Init
NEXT Next
INVARIANT Sound
