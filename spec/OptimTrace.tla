--------------------------------- MODULE OptimTrace ---------------------------------
(* Events on two models (see Optim); e.H: both holders after the operation.            *)
EXTENDS Optim, TraceData
VARIABLES tid, i, st, bad
S0(c) == IF c.kind = "bench"
         THEN [H |-> c.H, ms |-> [h \in 1..2 |-> [k \in 1..Len(c.H[h].P) |-> [j \in 1..Len(c.H[h].P[k]) |-> 0]]],
               lr |-> [h \in 1..2 |-> c.opt[h].lr]]
         ELSE [H |-> <<>>]
Ups(c, s, e) == [k \in 1..Len(c.names) |->
                  Upd([c.opt[e.h] EXCEPT !.lr = s.lr[e.h]], c.names[k], s.H[e.h].P[k], s.H[e.h].G[k], s.ms[e.h][k])]
\* both holders afterwards
Want(c, s, e) ==
  LET h == e.h
      g == 3 - e.h
  IN CASE e.op = "grad" -> [s.H EXCEPT ![h].G = e.G]
       [] e.op = "clear" -> [s.H EXCEPT ![h].G = [k \in 1..Len(@) |-> <<>>]]
       [] e.op = "copy" -> [s.H EXCEPT ![h] = CopyTo(@, s.H[g])]
       [] e.op = "soft" -> [s.H EXCEPT ![h] = SoftTo(@, s.H[g], e.tau)]
       [] e.op = "cgrad" -> [s.H EXCEPT ![h] = GradTo(@, s.H[g])]
       [] e.op = "update" -> LET u == Ups(c, s, e)
                             IN [s.H EXCEPT ![h].P = [k \in 1..Len(@) |-> u[k].p], ![h].G = e.H[h].G]
       [] OTHER -> s.H
Post(c, s, e) ==
  IF c.kind # "bench" THEN s
  ELSE [H |-> e.H,
        ms |-> IF e.op = "update" THEN LET u == Ups(c, s, e) IN [s.ms EXCEPT ![e.h] = [k \in 1..Len(@) |-> u[k].ms]] ELSE s.ms,
        lr |-> IF e.op = "hook" THEN [s.lr EXCEPT ![e.h] = e.v] ELSE s.lr]
Same(x, y, t) ==
  \A h \in 1..2 : /\ \A k \in 1..Len(y[h].P) : \A j \in 1..Len(y[h].P[k]) : Near(x[h].P[k][j], y[h].P[k][j], t)
                  /\ \A k \in 1..Len(y[h].S) : NearSeq(x[h].S[k], y[h].S[k], t)
                  /\ x[h].G = y[h].G
\* updates: errors in proportion to the change
SameU(c, x, y, s, e) ==
  LET u == Ups(c, s, e) IN
  \A h \in 1..2 : /\ \A k \in 1..Len(y[h].P) : \A j \in 1..Len(y[h].P[k]) :
                       IF h = e.h THEN Near(x[h].P[k][j], y[h].P[k][j],
                                            12 + u[k].t[j] + Abs(y[h].P[k][j] - s.H[h].P[k][j]) \div 50 + Abs(y[h].P[k][j]) \div 2000)
                       ELSE x[h].P[k][j] = y[h].P[k][j]
                  /\ x[h].S = y[h].S
                  /\ h # e.h => x[h].G = y[h].G
\* the residual of a solution
Res(e) == LET r == MatVec(e.A, e.x) IN [j \in 1..Len(e.b) |-> e.b[j] - r[j]]
SolveFails(c, e) ==
  C("the solution has shape and type of the right-hand side", e.like)
  \cup (IF e.iters = 0 THEN C("no iterations, no solution", \A j \in 1..Len(e.x) : e.x[j] = 0)
        ELSE IF e.iters >= Len(e.b)
        THEN C("conjugate gradients solve positive definite systems",
               LET r == Res(e) IN
               IF e.tol = 0 THEN \A j \in 1..Len(r) : Abs(r[j]) <= 30 + e.big
               ELSE \A j \in 1..Len(r) : Abs(r[j]) <= e.tol + 30 + e.big)
        ELSE IF e.iters = 1
        THEN C("an iteration goes along the residual", \/ NearSeq(e.x, First(e.A, e.b), 20)
               \/ \A j \in 1..Len(e.x) : e.x[j] = 0 /\ Abs(e.b[j]) <= e.tol)
        ELSE {})
Fails(c, s, e) ==
  IF e.exc # "" THEN {"an operation failed"}
  ELSE CASE e.op = "solve" -> SolveFails(c, e)
         [] e.op = "batch" -> C("batches stack what phi makes of every observation, component by component",
                                /\ e.out = [k \in 1..e.nc |-> [j \in 1..Len(e.obs) |-> e.obs[j] * e.phi + k - 1]]
                                /\ e.nested = (e.nc > 1))
         [] e.op = "update" -> C("updates move the parameters as documented", SameU(c, e.H, Want(c, s, e), s, e))
         [] e.op = "hook" -> C("schedules interpolate linearly between their ends",
                               Near(e.v, Interp(e.step, c.total, c.from, c.to), 3))
                             \cup C("schedules set values once, for the env and agent they get", e.calls = 1)
                             \cup C("schedules change nothing else", Same(e.H, s.H, 0))
         [] e.op \in {"grad", "clear"} -> C("gradients of one model are not those of another", Same(e.H, Want(c, s, e), 0))
         [] e.op = "copy" -> C("copies make parameters and statistics equal", Same(e.H, Want(c, s, e), 0))
         [] e.op = "soft" -> C("soft copies move parameters and statistics by tau", Same(e.H, Want(c, s, e), 6))
         [] OTHER -> C("gradients are copied, absent ones included", Same(e.H, Want(c, s, e), 0))
INSTANCE TraceBase
=====================================================================================
