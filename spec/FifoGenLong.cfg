CONSTANTS D = 60
 Cap <- Unbounded
 Long = TRUE
INIT Init
NEXT Next
INVARIANT Emit
