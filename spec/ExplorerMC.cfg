CONSTANTS
 Ps = {0, 5, 30, 100}
 Steps = 6
 MaxT = 8
SPECIFICATION Spec
INVARIANTS InRange Monotone Ends Half Frequency
CHECK_DEADLOCK FALSE
