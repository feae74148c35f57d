CONSTANTS Envs = 2
 MaxT = 6
 Stop = 4
 BUG = "none"
INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANTS EvalGreedy Offered Exploits Clock
