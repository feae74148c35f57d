------------------------------ MODULE AsyncLearnTrace ------------------------------
EXTENDS AsyncLearn, TraceData
VARIABLES tid, i, st, bad
S0(c) == S0State(c)
Post(c, s, e) == APost(c, s, e)
Fails(c, s, e) == AFails(c, s, e)
INSTANCE TraceBase
===================================================================================
