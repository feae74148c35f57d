INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS Inverse Adds Known Double Products Odd
