------------------------------ MODULE VecEnvTrace ------------------------------
EXTENDS VecEnv, TraceData
VARIABLES tid, i, st, bad
S0(c) == V0(c)
Post(c, s, e) == VPost(c, s, e)
Fails(c, s, e) == VFails(c, s, e)
INSTANCE TraceBase
===============================================================================
