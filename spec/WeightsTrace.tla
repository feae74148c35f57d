----------------------------- MODULE WeightsTrace -----------------------------
(* Rounds of sample / update: weights and priorities in the log domain.      *)
(* State: 4*log priority of each item (initially priority 1) and the number  *)
(* of samples so far.                                                        *)
EXTENDS Weights, TraceData
VARIABLES tid, i, st, bad
\* mx: 4*log of the largest priority set (items are appended before round 1)
S0(c) == [lp |-> [k \in 1..c.m |-> 0], t |-> 0]
Post(c, s, e) ==
  [lp |-> [x \in 1..c.m |->
             IF \E k \in 1..e.k : e.ids[k] = x
             THEN LogPri4(c, e.errs[CHOOSE k \in 1..e.k : e.ids[k] = x])
             ELSE s.lp[x]],
   t |-> s.t + 1]
MinLp(s, S) == CHOOSE v \in {s.lp[x] : x \in S} : \A x \in S : v <= s.lp[x]
Fails(c, s, e) ==
  LET bn == BetaNum(c, s.t) bd == BetaDen(c)
      ok == /\ Len(e.ids) = e.k /\ Distinct(e.ids) /\ Range(e.ids) \subseteq 1..c.m
      ref == MinLp(s, IF c.norm = "batch" THEN Range(e.ids) ELSE 1..c.m)
      \* log of priority ratio, rounded from 4*log
      R(x, y) == (x - y) \div 4
      tol == 6 * bd + 2 * bn
  IN C("a sample has distinct stored items", ok)
     \cup C("errors become (clip(error) + eps)^alpha",
        /\ Len(e.lp) = e.k
        /\ \A k \in 1..e.k : Abs(4 * e.lp[k] - LogPri4(c, e.errs[k])) <= 12 + c.anum)
     \cup (IF ~ok THEN {} ELSE
       C("one weight per sampled item", Len(e.lw) = e.k)
       \cup C("weights are (p / p_ref)^-beta with the scheduled beta",
          IF c.norm = "none"
          THEN \A j, k \in 1..e.k :
                 Abs((e.lw[j] - e.lw[k]) * bd
                     + bn * R(s.lp[e.ids[j]], s.lp[e.ids[k]])) <= tol
          ELSE \A k \in 1..e.k :
                 Abs(e.lw[k] * bd + bn * R(s.lp[e.ids[k]], ref)) <= tol)
       \cup C("unnormalised weights are (N p)^-beta",
          c.norm = "none" /\ Cardinality({s.lp[x] : x \in 1..c.m}) = 1
            => \A k \in 1..e.k : Abs(e.lw[k]) <= 2)
       \cup C("weights are in (0, 1] and the reference item has weight 1",
          c.norm # "none" =>
            \A k \in 1..e.k : /\ e.lw[k] <= 0
                              /\ (s.lp[e.ids[k]] = ref => e.lw[k] = 0)))
INSTANCE TraceBase
===============================================================================
