CONSTANTS N = 2
 CallsPer = 2
 Ival = 2
 HeaderLocked = TRUE
 MaxLocked = FALSE
INIT Init
NEXT Next
INVARIANTS Final
