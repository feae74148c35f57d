---------------------------- MODULE EvaluatorTrace ----------------------------
EXTENDS Evaluator, TraceData
VARIABLES tid, i, st, bad
S0(c) == EV0(c)
Post(c, s, e) == IF e.op = "shared" THEN s ELSE EVPost(c, s, e)
Fails(c, s, e) == IF e.op = "shared" THEN SharedFails(c, e) ELSE EVFails(c, s, e)
INSTANCE TraceBase
===============================================================================
