CONSTANTS
 Kind = "separate"
 Mid = TRUE
 Saved = {"par", "tgt", "opt"}
 MaxOps = 8
 Obs = {1, 2}
SPECIFICATION Spec
INVARIANTS Accepted SameLearning SameHidden LoadedIsSaved
CHECK_DEADLOCK FALSE
