------------------------------------ MODULE Mods ------------------------------------
(* Env modifiers: functions that rewrite step, reset and close of an env in place.     *)
(* An env is a stack M of modifiers over a base env that answers its n-th step with    *)
(* <<obs, reward, done>> = Script[n].  Rewards are reals scaled by K.                  *)
EXTENDS Nets
\* state: n base calls so far; ms state of every modifier; log calls of the base env
Init0(M) == [n |-> 0, log |-> <<>>,
             ms |-> [j \in 1..Len(M) |-> IF M[j].t \in {"avg", "norm"} THEN [a |-> 0, q |-> 0] ELSE [t |-> 1]]]
Rend(m, close) == <<"render", m.k + (IF close THEN 100 ELSE 0)>>
RECURSIVE Root(_)
Root(v) == IF v >= 16 * K THEN 2 * Root(v \div 4) ELSE Sqrt(v)
\* running averages, scaled by 64 more
Move(x, r, tau) == x + Frac(64 * r - x, tau, 1000)
Filt(m, z, r) ==
  LET a == Move(z.a, r, m.tau)
      q == IF m.t = "norm" THEN Move(z.q, Mul(r, r), m.tau) ELSE 0
      d == r - a \div 64
      var == q \div 64 - Mul(a \div 64, a \div 64)
      sd == Root(Max2(var, m.eps))
  IN [z |-> [a |-> a, q |-> q],
      r |-> IF m.t = "avg" THEN d
            ELSE m.scale * (IF d < 0 THEN -Div(-d, sd) ELSE Div(d, sd))]
RECURSIVE Step(_, _, _, _, _)
RECURSIVE Repeat(_, _, _, _, _, _, _)
\* one step of the env under the first j modifiers
Step(M, S, j, s, a) ==
  IF j = 0 THEN LET n == s.n + 1
                    z == S[((n - 1) % Len(S)) + 1]
                IN [s |-> [s EXCEPT !.n = n, !.log = Append(@, <<"step", a>>)], obs |-> n, r |-> z.r, done |-> z.done]
  ELSE LET m == M[j] IN
    CASE m.t = "rendered" ->
           LET e == Step(M, S, j - 1, s, a) IN [e EXCEPT !.s.log = Append(@, Rend(m, FALSE))]
      [] m.t = "limit" ->
           LET e == Step(M, S, j - 1, s, a)
               t == e.s.ms[j].t
           IN [e EXCEPT !.s.ms[j].t = t + 1, !.done = @ \/ t >= m.k]
      [] m.t = "action" -> Step(M, S, j - 1, s, a * m.k + 1)
      [] m.t = "reward" -> LET e == Step(M, S, j - 1, s, a) IN [e EXCEPT !.r = @ * m.k]
      [] m.t = "clip" -> LET e == Step(M, S, j - 1, s, a) IN [e EXCEPT !.r = Min2(Max2(@, m.lo), m.hi)]
      [] m.t = "repeat" -> Repeat(M, S, j, s, a, m.k, 0)
      [] OTHER -> LET e == Step(M, S, j - 1, s, a)
                      f == Filt(m, e.s.ms[j], e.r)
                  IN [e EXCEPT !.s.ms[j] = f.z, !.r = f.r]
Repeat(M, S, j, s, a, k, tot) ==
  LET e == Step(M, S, j - 1, s, a)
  IN IF k = 1 \/ e.done THEN [e EXCEPT !.r = @ + tot]
     ELSE Repeat(M, S, j, e.s, a, k - 1, tot + e.r)
\* resets count as base calls, too: observations are numbered
Reset(M, s) == [s EXCEPT !.n = @ + 1, !.log = Append(@, <<"reset", 0>>),
                         !.ms = [j \in 1..Len(M) |-> IF M[j].t = "limit" THEN [t |-> 1] ELSE @[j]]]
\* outermost first
RECURSIVE Close(_, _, _)
Close(M, j, s) == IF j = 0 THEN [s EXCEPT !.log = Append(@, <<"close", 0>>)]
                  ELSE IF M[j].t = "rendered"
                       THEN Close(M, j - 1, [s EXCEPT !.log = Append(@, Rend(M[j], TRUE))])
                       ELSE Close(M, j - 1, s)
=====================================================================================
