CONSTANTS
 MaxOps = 34
 Batch = FALSE
 Mid = FALSE
 WithSaves = FALSE
INIT Init
NEXT Next
INVARIANT Emit
