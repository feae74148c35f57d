----------------------------- MODULE EvalRunTrace -----------------------------
EXTENDS EvalRun, TraceData
VARIABLES tid, i, st, bad
S0(c) == ER0(c)
Post(c, s, e) == ERPost(c, s, e)
Fails(c, s, e) == ERFails(c, s, e)
INSTANCE TraceBase
===============================================================================
