CONSTANTS
 Bug = "throw"
 MaxOps = 5
INIT Init
NEXT Next
INVARIANT Sound
