-------------------------- MODULE SameRunTrace ---------------------------
EXTENDS SameRun, TraceData
VARIABLES tid, i, st, bad
S0(c) == RunInit(c)
Post(c, s, e) == RunPost(c, s, e)
Fails(c, s, e) == RunFails(c, s, e)
INSTANCE TraceBase
==========================================================================
