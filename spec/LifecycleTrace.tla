------------------------- MODULE LifecycleTrace --------------------------
EXTENDS Lifecycle, TraceData
VARIABLES tid, i, st, bad
S0(c) == LInit(c)
Post(c, s, e) == LPost(c, s, e)
Fails(c, s, e) == LFails(c, s, e)
INSTANCE TraceBase
===========================================================================
