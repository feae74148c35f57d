------------------------------- MODULE Weights -------------------------------
(* Error -> priority -> importance weight, with logarithms (base 2, scaled   *)
(* by 4096).  beta after t samples is BetaNum(c, t) / BetaDen(c).            *)
EXTENDS Util
BetaDen(c) == 16 * (IF c.bs = 0 THEN 1 ELSE c.bs)
BetaNum(c, t) == IF c.bs = 0 THEN c.b0
                 ELSE Min2(16 * c.bs, c.b0 * c.bs + t * (16 - c.b0))
\* index of the clipped error in the grid (a sorted sequence)
Idx(c, v) == CHOOSE k \in 1..Len(c.grid) : c.grid[k] = v
ClipV(c, v) == LET a == IF c.emin = -99 THEN v ELSE Max2(c.emin, v)
               IN IF c.emax = 99 THEN a ELSE Min2(c.emax, a)
\* 4 * log priority
LogPri4(c, k) == c.anum * c.tab[Idx(c, ClipV(c, c.grid[k]))]
==============================================================================
