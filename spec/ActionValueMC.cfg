CONSTANTS
 Vals <- MVals
 NA = 4
SPECIFICATION Spec
INVARIANTS Adv QuadMax
CHECK_DEADLOCK FALSE
