-------------------------------- MODULE AleTrace --------------------------------
EXTENDS Ale, TraceData
VARIABLES tid, i, st, bad
S0(c) == A0(c)
Post(c, s, e) == APost(c, s, e)
Fails(c, s, e) == AFails(c, s, e)
INSTANCE TraceBase
===============================================================================
