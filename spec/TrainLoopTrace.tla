---------------------------- MODULE TrainLoopTrace ----------------------------
EXTENDS TrainLoop, TraceData
VARIABLES tid, i, st, bad
S0(c) == TL0(c)
Post(c, s, e) == TLPost(c, s, e)
Fails(c, s, e) == TLFails(c, s, e)
INSTANCE TraceBase
===============================================================================
