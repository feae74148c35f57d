CONSTANTS
 Bug = "shallow"
 MaxOps = 5
INIT Init
NEXT Next
INVARIANT Sound
