CONSTANTS
 Bug = "none"
 Par = FALSE
 Steps = 4
INIT Init
NEXT Next
INVARIANT Sound
