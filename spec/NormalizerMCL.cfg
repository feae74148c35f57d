CONSTANTS
 Vals = {0, 1, 3, 7}
 MaxN = 8
 MaxB = 4
 Until = 99
SPECIFICATION Spec
INVARIANTS Refines IsStat Limit
CHECK_DEADLOCK FALSE
