CONSTANTS Offs = {0, 7, 10}
 Ints = {1, 5, 10}
 Ns = {1, 2, 3, 4}
 Gaps = {0, 1, 3, 5, 12, 31}
 Rets <- RetsLong
 Len_ = 14
 Gen = TRUE
 Rnd = TRUE
 Async <- SeqOrAsync
INIT Init
NEXT Next
INVARIANTS Emit
