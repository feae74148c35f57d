CONSTANTS
 Kind = "plain"
 Mid = FALSE
 Saved = {"par", "opt"}
 MaxOps = 6
 Obs = {1, 2}
SPECIFICATION Spec
INVARIANTS Accepted
CHECK_DEADLOCK FALSE
