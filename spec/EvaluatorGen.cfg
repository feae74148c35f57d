CONSTANTS Offs = {0, 1, 3}
 Ints = {1, 2, 3}
 Ns = {1}
 Gaps = {0, 1, 2, 4}
 Rets <- RetsAll
 Len_ = 2
 Gen = TRUE
 Rnd = FALSE
 Async <- SeqOrAsync
INIT Init
NEXT Next
INVARIANTS Emit
