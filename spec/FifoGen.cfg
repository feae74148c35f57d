CONSTANTS D = 5
 Cap = 2
 Long = FALSE
INIT Init
NEXT Next
INVARIANT Emit
