------------------------------------ MODULE Optim -----------------------------------
(* Parameters of two models and what changes them: copies, optimizers, decay, learning *)
(* rate schedules; a solver.  Reals scaled by K; running squares ms scaled by 4096 K.    *)
(* A holder: P parameters, G gradients (<<>>: none), S statistics of batch norms.        *)
EXTENDS Nets
RECURSIVE Root(_)
Root(v) == IF v >= 16 * K THEN 2 * Root(v \div 4) ELSE Sqrt(v)
VMap2(f(_, _), u, v) == [j \in 1..Len(u) |-> f(u[j], v[j])]
\* ------------------------------------------------------------------ copies
CopyTo(d, s) == [d EXCEPT !.P = s.P, !.S = s.S]
Mix(u, v, tau) == [j \in 1..Len(u) |-> u[j] + Frac(v[j] - u[j], tau, 8)]
SoftTo(d, s, tau) == [d EXCEPT !.P = [k \in 1..Len(@) |-> Mix(@[k], s.P[k], tau)],
                               !.S = [k \in 1..Len(@) |-> Mix(@[k], s.S[k], tau)]]
GradTo(d, s) == [d EXCEPT !.G = s.G]
\* ------------------------------------------------------------------ optimizers
\* gradient after decay, for parameters not named b
Decay(g, p, name, rate) == IF name = "b" THEN g ELSE [j \in 1..Len(g) |-> g[j] + Frac(p[j], rate, 8)]
\* o: [kind, lr (scaled by K), alpha (of 1000), eps (scaled by 4096 K), decay (of 8)]
Sq(g) == IF Abs(g) < 4096 THEN Mul(64 * Abs(g), 64 * Abs(g)) ELSE 4096 * Mul(g, g)
Ms(o, ms, g) == [j \in 1..Len(g) |-> Frac(ms[j], o.alpha, 1000) + Frac(Sq(g[j]), 1000 - o.alpha, 1000)]
Scaled(o, ms, g) == [j \in 1..Len(g) |-> LET r == Root(ms[j] + o.eps) IN
                      IF r = 0 THEN 0 ELSE IF g[j] < 0 THEN -Div(-64 * g[j], r) ELSE Div(64 * g[j], r)]
\* (the framework takes absent gradients for zeros)
Upd(o, name, p, g0, ms) ==
  LET g == IF g0 = <<>> THEN [j \in 1..Len(p) |-> 0] ELSE g0
      g2 == Now(IF o.decay = 0 THEN g ELSE Decay(g, p, name, o.decay))
      m == IF o.kind = "rms" THEN Now(Ms(o, ms, g2)) ELSE ms
      z == IF o.kind = "rms" THEN Now(Scaled(o, m, g2)) ELSE g2
  IN [p |-> [j \in 1..Len(p) |-> p[j] - Times(z[j], o.lr)], ms |-> m,
      \* what the last digit of a gradient makes of that
      t |-> [j \in 1..Len(p) |-> IF o.kind = "sgd" THEN 2
                                 ELSE LET r == Root(m[j] + o.eps) IN IF o.eps = 0 /\ m[j] < 100 THEN 536870912 ELSE (96 * Abs(o.lr)) \div r]]
\* linear from step 1 to step total, constant outside
Interp(step, total, a, b) ==
  IF step <= 1 THEN a ELSE IF step >= total THEN b ELSE a + Frac(b - a, step - 1, total - 1)
\* ------------------------------------------------------------------ solver
MatVec(A, x) == [i \in 1..Len(A) |-> Dot(A[i], x)]
\* first step of conjugate gradients
First(A, b) == LET n == Dot(b, b) IN
               IF n = 0 THEN b ELSE [i \in 1..Len(b) |-> Div(Mul(b[i], n), Dot(MatVec(A, b), b))]
=====================================================================================
