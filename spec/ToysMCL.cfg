CONSTANTS N = 6
 BREAK = ""
INIT Init
NEXT Next
INVARIANTS Limited Patient Repeated Clipped Actions Rendered OneHot Rewarded
CHECK_DEADLOCK FALSE
