CONSTANTS
 MaxOps = 30
 Batch = TRUE
 Mid = FALSE
 WithSaves = FALSE
INIT Init
NEXT Next
INVARIANT Emit
