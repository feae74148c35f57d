CONSTANTS N = 3
 CallsPer = 1
 Ival = 2
 HeaderLocked = TRUE
 MaxLocked = TRUE
INIT Init
NEXT Next
INVARIANTS Final
