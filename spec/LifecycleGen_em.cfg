CONSTANTS
 MaxOps = 34
 Batch = FALSE
 Mid = TRUE
 WithSaves = FALSE
INIT Init
NEXT Next
INVARIANT Emit
