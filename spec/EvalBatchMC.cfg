CONSTANTS MaxN = 4
 N = 2
 MaxT = 6
INIT Init
NEXT Next
INVARIANTS Played EpsInOrder Scored Settled NotEarly
