---------------------------- MODULE EvalBatchTrace ----------------------------
EXTENDS EvalBatch, TraceData
VARIABLES tid, i, st, bad
E(e) == IF e.op = "reset" THEN [e EXCEPT !.reset = Range(@)] ELSE e
S0(c) == EB0(c)
Post(c, s, e) == EBPost(c, s, E(e))
Fails(c, s, e) == EBFails(c, s, E(e))
INSTANCE TraceBase
===============================================================================
