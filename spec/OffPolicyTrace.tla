------------------------------ MODULE OffPolicyTrace ------------------------------
EXTENDS OffPolicy, TraceData
VARIABLES tid, i, st, bad
S0(c) == S0State(c)
Post(c, s, e) == OPost(c, s, e)
Fails(c, s, e) == OFails(c, s, e)
INSTANCE TraceBase
===================================================================================
