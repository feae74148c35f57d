CONSTANTS
 Bug = "own"
 Par = FALSE
 Steps = 4
INIT Init
NEXT Next
INVARIANT Sound
