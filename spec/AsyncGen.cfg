CONSTANTS Ns = {2, 3}
 StepsS = {3, 6, 9}
 MaxLens = {0, 2, 3}
 Hooks = {1, 2}
 Succs <- NoOrOne
 Scores = {0, 1}
 Gen = TRUE
 Locked = TRUE
 W = 6
INIT Init
NEXT Next
INVARIANTS Accepted Emit
