CONSTANTS
 Bug = "none"
 MaxOps = 5
INIT Init
NEXT Next
INVARIANT Sound
