------------------------------ MODULE AsyncTrace ------------------------------
EXTENDS Async, TraceData
VARIABLES tid, i, st, bad
S0(c) == AS0(c)
Post(c, s, e) == ASPost(c, s, e)
Fails(c, s, e) == ASFails(c, s, e)
INSTANCE TraceBase
===============================================================================
