CONSTANTS
 Bug = "none"
 Par = FALSE
 Steps = 7
INIT Init
NEXT Next
INVARIANT Sound
