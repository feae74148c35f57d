---------------------------- MODULE ExplorerMC ----------------------------
(* An epsilon-greedy explorer stepped through time with every random draw: *)
(* the fraction of draws that explore is epsilon(t), which goes            *)
(* monotonically from start to end in equal steps and then stays.          *)
EXTENDS Explorer, FiniteSets, TLC
CONSTANTS Ps, Steps, MaxT
VARIABLES start, end, steps, t, prev
vars == <<start, end, steps, t, prev>>
E(k) == EpsLinear(start, end, steps, k)
Init == /\ start \in Ps /\ end \in Ps /\ steps \in 0..Steps
        /\ t = 0 /\ prev = E(0)
Next == t < MaxT /\ t' = t + 1 /\ prev' = E(t) /\ UNCHANGED <<start, end, steps>>
Spec == Init /\ [][Next]_vars
Le(p, q) == p[1] * q[2] <= q[1] * p[2]
InRange == /\ Le(<<0, 1>>, E(t)) /\ Le(E(t), <<1, 1>>)
           /\ Le(<<IF start < end THEN start ELSE end, 100>>, E(t))
           /\ Le(E(t), <<IF start < end THEN end ELSE start, 100>>)
Monotone == IF start <= end THEN Le(prev, E(t)) ELSE Le(E(t), prev)
Ends == /\ (t = 0 /\ steps > 0) => Le(E(t), <<start, 100>>) /\ Le(<<start, 100>>, E(t))
        /\ t >= steps => Le(E(t), <<end, 100>>) /\ Le(<<end, 100>>, E(t))
\* halfway is the midpoint (not merely any monotone path)
Half == (2 * t = steps /\ t > 0) =>
          Le(E(t), <<start + end, 200>>) /\ Le(<<start + end, 200>>, E(t))
M == 100 * (IF steps = 0 THEN 1 ELSE steps)
Frequency ==
  LET e == E(t)
  IN Cardinality({u \in 0..(M - 1) : Explores(e, u, M)}) * e[2] = e[1] * M
===========================================================================
