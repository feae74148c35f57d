---------------------------- MODULE TrainBatchTrace ----------------------------
EXTENDS TrainBatch, TraceData
VARIABLES tid, i, st, bad
S0(c) == TB0(c)
\* sets arrive as sequences
E(e) == IF e.op = "reset" THEN [e EXCEPT !.reset = Range(@)] ELSE e
Post(c, s, e) == TBPost(c, s, E(e))
Fails(c, s, e) == TBFails(c, s, E(e))
INSTANCE TraceBase
===============================================================================
