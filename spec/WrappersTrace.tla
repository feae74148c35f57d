---------------------------- MODULE WrappersTrace ----------------------------
EXTENDS Wrappers, Stat, TraceData
VARIABLES tid, i, st, bad
S0(c) == W0(c)
Post(c, s, e) == WPost(c, s, e)
\* how often an action was kept or replaced by each action
Freq(c, e) ==
  C("a random action replaces the agent's with the probability given, uniformly",
    \A a \in 1..c.na : \A x \in 1..c.na :
      \* P(x | a) = frac / na + (1 - frac) [x = a], frac in percent
      FreqOK(e.count[a][x], e.n, c.frac + (IF x = a THEN (100 - c.frac) * c.na ELSE 0),
             100 * c.na))
Fails(c, s, e) == IF e.op = "freq" THEN Freq(c, e) ELSE WFails(c, s, e)
INSTANCE TraceBase
===============================================================================
