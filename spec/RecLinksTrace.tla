-------------------------- MODULE RecLinksTrace --------------------------
EXTENDS RecLinks, TraceData
VARIABLES tid, i, st, bad
S0(c) == RLInit(c)
Post(c, s, e) == RLPost(c, s, e)
Fails(c, s, e) == RLFails(c, s, e)
INSTANCE TraceBase
===========================================================================
