CONSTANTS N = 4
 BREAK = "alias"
INIT Init
NEXT Next
INVARIANTS Copied Soft Grads Biases Bounded Sched
PROPERTY Apart
CHECK_DEADLOCK FALSE
