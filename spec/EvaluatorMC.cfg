CONSTANTS Offs = {0, 1, 3}
 Ints = {1, 2, 3}
 Ns = {1}
 Gaps = {0, 1, 2, 4}
 Rets = {0, 1}
 Len_ = 4
 Gen = FALSE
 Rnd = FALSE
 Async <- SeqOrAsync
INIT Init
NEXT Next
INVARIANTS Boundaries AllBoundaries NoneLost BestIsMax
