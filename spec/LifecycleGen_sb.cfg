CONSTANTS
 MaxOps = 24
 Batch = TRUE
 Mid = FALSE
 WithSaves = TRUE
INIT Init
NEXT Next
INVARIANT Emit
