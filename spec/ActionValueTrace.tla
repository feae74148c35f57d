------------------------- MODULE ActionValueTrace -------------------------
(* cfg: kind, den, z (dist), rows, minmax;  events: "new" and "slice"      *)
(* (idx: 0-based rows of the current object); after each every attribute   *)
(* of the current object is recorded in units 1 / (64 den) (x64).          *)
EXTENDS ActionValue, TraceData
VARIABLES tid, i, st, bad
S0(c) == c.rows
Post(c, s, e) == IF e.op = "slice" THEN Pick(s, e.idx) ELSE s
Near(a, b, t) == Abs(a - b) <= t
All(e, s, P(_)) == Len(s) = e.n /\ \A k \in 1..Len(s) : P(k)
DiscFails(c, q, e) ==
  LET Q(k) == QRow(c, q[k])
      m(k) == MaxOf(Q(k))
      OKn(seq) == Len(seq) = Len(q)
      rows == 1..Len(q)
  IN C("q_values are the expectations of what is wrapped",
       OKn(e.q) /\ \A k \in rows : Len(e.q[k]) = Len(Q(k))
          /\ \A a \in 1..Len(Q(k)) : Near(e.q[k][a], 64 * Q(k)[a], 1))
     \cup C("greedy actions attain the maximum",
       OKn(e.greedy) /\ \A k \in rows : e.greedy[k] + 1 \in ArgMax(Q(k)))
     \cup C("max is the maximal Q value", OKn(e.max) /\ \A k \in rows : Near(e.max[k], 64 * m(k), 1))
     \cup C("evaluating actions picks their Q values",
       OKn(e.ev) /\ \A k \in rows : Near(e.ev[k], 64 * Q(k)[e.acts[k] + 1], 1))
     \cup C("advantages are Q minus the maximum",
       OKn(e.adv) /\ \A k \in rows : Near(e.adv[k], 64 * (Q(k)[e.acts[k] + 1] - m(k)), 1))
     \cup C("double advantages are Q minus the Q of the other actions",
       OKn(e.dadv) /\ \A k \in rows :
          Near(e.dadv[k], 64 * (Q(k)[e.acts[k] + 1] - Q(k)[e.acts2[k] + 1]), 1))
     \cup C("expectations weigh Q values by their softmax",
       OKn(e.soft) /\ \A k \in rows : (MaxOf(Q(k)) - MinOf(Q(k)) <= 12) =>
          Near(e.soft[k] * SoftDen(Q(k)), 64 * SoftNum(Q(k)), 2 * SoftDen(Q(k))))
     \cup C("expectations with beta zero are means",
       OKn(e.mean) /\ \A k \in rows : Near(e.mean[k] * Len(Q(k)), 64 * Sum(Q(k)), 2 * Len(Q(k))))
     \cup C("gradients of max and of evaluated actions reach exactly the picked entries",
       \A k \in rows :
          /\ \A a \in 1..Len(Q(k)) :
               /\ e.gmax[k][a] = (IF a = e.greedy[k] + 1 THEN 1 ELSE 0)
               /\ e.gev[k][a] = (IF a = e.acts[k] + 1 THEN 1 ELSE 0))
     \cup C("the number of actions and the parameters are those wrapped", e.nact = Len(Q(1)) /\ e.params)
     \cup (CASE c.kind = "dist" ->
             C("distributions of actions are the wrapped ones",
               \A k \in rows : /\ e.dmax[k] = q[k][e.greedy[k] + 1]
                               /\ e.dev[k] = q[k][e.acts[k] + 1])
             [] c.kind = "quant" ->
             C("quantiles of actions are the wrapped ones",
               \A k \in rows : e.dev[k] = [t \in 1..Len(q[k]) |-> q[k][t][e.acts[k] + 1]])
             [] OTHER -> {})
ContFails(c, q, e) ==
  LET rows == 1..Len(q)
      OKn(seq) == Len(seq) = Len(q)
  IN C("greedy actions are the (clipped) maximizers",
       OKn(e.greedy) /\ \A k \in rows : e.greedy[k] = QuadGreedy(q[k]))
     \cup C("max is the Q value of the greedy action",
       OKn(e.max) /\ \A k \in rows : Near(e.max[k], QuadVal(q[k], QuadGreedy(q[k])), 0))
     \cup C("evaluating actions gives their Q values",
       OKn(e.ev) /\ \A k \in rows : Near(e.ev[k], QuadVal(q[k], e.acts[k]), 0))
     \cup C("advantages are Q minus the maximum",
       OKn(e.adv) /\ \A k \in rows :
          Near(e.adv[k], QuadVal(q[k], e.acts[k]) - QuadVal(q[k], QuadGreedy(q[k])), 0))
     \cup C("double advantages are Q minus the Q of the other actions",
       OKn(e.dadv) /\ \A k \in rows :
          Near(e.dadv[k], QuadVal(q[k], e.acts[k]) - QuadVal(q[k], e.acts2[k]), 0))
Fails(c, s, e) ==
  IF e.exc # "" THEN {"an attribute raised an exception"}
  ELSE IF c.kind \in {"quad", "single"} THEN ContFails(c, Post(c, s, e), e)
  ELSE DiscFails(c, Post(c, s, e), e)
INSTANCE TraceBase
==========================================================================
