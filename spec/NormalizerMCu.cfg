CONSTANTS
 Vals = {0, 1, 3}
 MaxN = 6
 MaxB = 3
 Until = 3
SPECIFICATION Spec
INVARIANTS Refines IsStat Limit
CHECK_DEADLOCK FALSE
