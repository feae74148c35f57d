----------------------------- MODULE Explorer -----------------------------
(* Exploration: the schedule of epsilon and what is selected.  An epsilon   *)
(* is a fraction <<num, den>>.                                              *)
EXTENDS Integers, Sequences
\* start, end in hundredths
EpsConst(p) == <<p, 100>>
EpsLinear(start, end, steps, t) ==
  IF t >= steps THEN <<end, 100>>
  ELSE <<start * steps + (end - start) * t, 100 * steps>>
\* epsilon-greedy: u uniform in 0..M-1
Explores(eps, u, M) == u * eps[2] < eps[1] * M
\* Boltzmann with q = T ln(2) k: probability of action a is 2^k[a] / BoltzDen
Pow2(k) == 2 ^ k
RECURSIVE BoltzDen(_)
BoltzDen(ks) == IF ks = <<>> THEN 0 ELSE Pow2(Head(ks)) + BoltzDen(Tail(ks))
\* clipping to optional bounds (noise explorers)
Clip(x, haslow, low, hashigh, high) ==
  LET y == IF haslow /\ x < low THEN low ELSE x
  IN IF hashigh /\ y > high THEN high ELSE y
===========================================================================
