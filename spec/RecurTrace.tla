--------------------------- MODULE RecurTrace ----------------------------
EXTENDS Recur, TraceData
VARIABLES tid, i, st, bad
S0(c) == RInit(c)
Post(c, s, e) == RPost(c, s, e)
Fails(c, s, e) == RFails(c, s, e)
INSTANCE TraceBase
===========================================================================
