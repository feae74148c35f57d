CONSTANTS
 Bug = "none"
 Par = TRUE
 Steps = 3
INIT Init
NEXT Next
INVARIANT Sound
