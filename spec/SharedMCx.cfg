CONSTANTS
 Vals = {1, 2}
 MaxOps = 4
 Kids = {1}
 Broken = TRUE
SPECIFICATION Spec
INVARIANTS Refines Agree
CHECK_DEADLOCK FALSE
