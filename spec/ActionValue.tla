---------------------------- MODULE ActionValue ----------------------------
(* Batched action values.  A state is [kind, rows]; a row of               *)
(*   discrete: <<q_1, .., q_A>>                                            *)
(*   dist:     <<p_1, .., p_A>>, p_a = weights (of sum W) of the atoms     *)
(*   quant:    <<z_1, .., z_T>>, z_t = values of the A actions             *)
(*   quad:     [mu, p (diagonal), v, lo, hi]                               *)
(* Q values are integers in units 1/Den.                                   *)
EXTENDS Util
RECURSIVE Dot(_, _)
Dot(a, b) == IF a = <<>> THEN 0 ELSE Head(a) * Head(b) + Dot(Tail(a), Tail(b))
\* Q values of one row (integers, to be divided by c.den)
QRow(c, r) ==
  CASE c.kind = "dist" -> [a \in 1..Len(r) |-> Dot(r[a], c.z)]
    [] c.kind = "quant" -> [a \in 1..Len(r[1]) |-> Sum([t \in 1..Len(r) |-> r[t][a]])]
    [] OTHER -> r
MaxOf(q) == CHOOSE m \in Range(q) : \A x \in Range(q) : x <= m
ArgMax(q) == {a \in 1..Len(q) : q[a] = MaxOf(q)}
\* softmax expectation with weights 2^q (q shifted by the minimum)
MinOf(q) == CHOOSE m \in Range(q) : \A x \in Range(q) : x >= m
SoftNum(q) == Sum([a \in 1..Len(q) |-> (2 ^ (q[a] - MinOf(q))) * q[a]])
SoftDen(q) == Sum([a \in 1..Len(q) |-> 2 ^ (q[a] - MinOf(q))])
\* quadratic: mu, u, lo, hi in halves, p and v integers: value in eighths
QuadClip(r, k) == LET a == IF r.haslo /\ r.mu[k] < r.lo[k] THEN r.lo[k] ELSE r.mu[k]
                  IN IF r.hashi /\ a > r.hi[k] THEN r.hi[k] ELSE a
QuadGreedy(r) == [k \in 1..Len(r.mu) |-> QuadClip(r, k)]
\* p: matrix; full quadratic form
QuadVal(r, u) ==
  LET d == [k \in 1..Len(u) |-> u[k] - r.mu[k]]
  IN 8 * r.v - Sum([j \in 1..Len(u) |-> Sum([k \in 1..Len(u) |-> d[j] * r.p[j][k] * d[k]])])
Pick(rows, idx) == [k \in 1..Len(idx) |-> rows[idx[k] + 1]]
===========================================================================
