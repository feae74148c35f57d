CONSTANTS
 MaxOps = 30
 Batch = FALSE
 Mid = FALSE
 WithSaves = TRUE
INIT Init
NEXT Next
INVARIANT Emit
