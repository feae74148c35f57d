---------------------------------- MODULE ToysTrace ---------------------------------
(* kind "mods": reset, step, close of an env under modifiers, with the calls the base *)
(* env got; kind "abc": reset, step of the toy env; "freq": frequencies.               *)
EXTENDS Mods, Abc, Stat, TraceData
VARIABLES tid, i, st, bad
S0(c) == IF c.kind = "mods" THEN Init0(c.M) ELSE [x |-> 0, off |-> 0, eps |-> 0]
\* ------------------------------------------------------------------ toy env
Clamp(av) == [j \in 1..Len(av) |-> Max2(-K, Min2(K, av[j]))]
Probs(av) == Softmax(Clamp(av))
\* inner actions a step may take
Inner(c, e) == IF c.discrete THEN {e.a}
               ELSE IF c.det THEN LET v == Clamp(e.av) IN {j - 1 : j \in {n \in 1..Len(v) : v[n] = MaxOf(v)}}
               ELSE 0..(c.size - 1)
Outs(c, s, e) ==
  IF e.op = "reset" THEN {[s |-> [Begin(s, o) EXCEPT !.eps = 1], r |-> 0, done |-> FALSE] : o \in Offs(c, s)}
  ELSE {Act(c, s, a) : a \in Inner(c, e)}
Fit(c, s, e) == {z \in Outs(c, s, e) : Obs(c, z.s) = e.obs /\ z.r = e.r /\ z.done = e.done}
\* ------------------------------------------------------------------ modifiers
Do(c, s, e) ==
  LET s0 == [s EXCEPT !.log = <<>>] IN
  CASE e.op = "reset" -> LET z == Reset(c.M, s0) IN [s |-> z, obs |-> z.n, r |-> 0, done |-> FALSE]
    [] e.op = "close" -> [s |-> Close(c.M, Len(c.M), s0), obs |-> 0, r |-> 0, done |-> FALSE]
    [] OTHER -> Step(c.M, c.S, Len(c.M), s0, e.a)
Post(c, s, e) == IF e.op = "freq" THEN s
                 ELSE IF c.kind = "mods" THEN Do(c, s, e).s
                 ELSE (CHOOSE z \in Fit(c, s, e) : TRUE).s
RECURSIVE Amp(_, _)
Amp(M, j) == IF j = 0 THEN 1 ELSE Amp(M, j - 1) * (IF M[j].t \in {"reward", "repeat"} THEN M[j].k ELSE 1)
RTol(c, r) == IF \E j \in 1..Len(c.M) : c.M[j].t \in {"norm", "avg"} THEN 60 * Amp(c.M, Len(c.M)) + Abs(r) \div 60 ELSE 4
Fails(c, s, e) ==
  IF e.exc # "" THEN {"an operation on an env failed"}
  ELSE CASE e.op = "freq" ->
              C("stochastic choices of the toy env follow its documentation",
                FreqOK(e.count, e.N, IF e.av = <<>> THEN 5000 ELSE (Probs(e.av)[1] * 1000) \div 819, 10000))
         [] c.kind = "abc" ->
              C("the toy env follows its documented dynamics", Fit(c, s, e) # {})
              \cup C("observations and actions lie in the spaces", e.inspace)
         [] OTHER ->
              LET z == Do(c, s, e) IN
              C("modified envs call the base env as documented", e.calls = z.s.log)
              \cup C("modified envs return the latest observation", e.obs = z.obs)
              \cup C("modified envs end episodes as documented", e.done = z.done)
              \cup C("modified envs return the modified reward", Near(e.r, z.r, RTol(c, z.r)))
INSTANCE TraceBase
=====================================================================================
