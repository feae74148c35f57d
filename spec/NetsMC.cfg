CONSTANTS H = 1
INIT Init
NEXT Next
INVARIANTS Slope LowT Dueling Mellows Bounded Normal
CHECK_DEADLOCK FALSE
