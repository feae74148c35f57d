CONSTANTS
 Kind = "pend"
 Mid = TRUE
 Saved = {"par", "tgt", "opt"}
 MaxOps = 6
 Obs = {1, 2}
SPECIFICATION Spec
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
