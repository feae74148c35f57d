CONSTANTS
 Vals = {1, 2}
 MaxOps = 4
 Kids = {1}
 Broken = FALSE
SPECIFICATION Spec
INVARIANTS Refines Agree
CHECK_DEADLOCK FALSE
