CONSTANTS N = 2
 CallsPer = 2
 Ival = 2
 HeaderLocked = FALSE
 MaxLocked = TRUE
INIT Init
NEXT Next
INVARIANTS Final
