CONSTANTS N = 4
 BREAK = "stale"
INIT Init
NEXT Next
INVARIANTS Limited Patient Repeated Clipped Actions Rendered OneHot Rewarded
CHECK_DEADLOCK FALSE
