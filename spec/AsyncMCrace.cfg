CONSTANTS Ns = {2}
 StepsS = {1, 2, 3}
 MaxLens = {0, 1}
 Hooks = {1}
 Succs <- NoOrOne
 Scores = {0, 1}
 Gen = FALSE
 Locked = FALSE
 W = 0
INIT Init
NEXT Next
INVARIANTS Accepted Numbers AtMostOneOver OneFinal OneWinner Bounded AllStop
