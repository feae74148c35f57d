------------------------- MODULE StateStackTrace -------------------------
EXTENDS StateStack, TraceData
VARIABLES tid, i, st, bad
S0(c) == SInit(c)
Post(c, s, e) == SPost(c, s, e)
Fails(c, s, e) == SFails(c, s, e)
INSTANCE TraceBase
==========================================================================
