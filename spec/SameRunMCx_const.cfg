CONSTANTS
 Bug = "const"
 Par = FALSE
 Steps = 4
INIT Init
NEXT Next
INVARIANT Sound
