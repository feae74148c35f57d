CONSTANTS MaxN = 5
 N = 3
 MaxT = 4
INIT Init
NEXT Next
INVARIANTS Played EpsInOrder Scored Settled NotEarly
