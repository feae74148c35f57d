---------------------------------- MODULE ActingTrace -------------------------------
(* Events "act" and "train" (one observation or a batch), "many" (repeated choices),   *)
(* "stop".  e.asked: what the explorer was asked, in order: [t, g] and the values av.  *)
EXTENDS Acting, Stat, TraceData
VARIABLES tid, i, st, bad
C0(c) == IF Greedy(c) THEN c
         ELSE [c EXCEPT !.rows = [o \in 1..Len(c.rows) |-> Make(c.specs[o])]]
\* st: number of steps trained on, and the configuration with its distributions
S0(c) == [t |-> c.t0, c |-> C0(c)]
Post(c0, s, e) == IF e.op = "train" \/ (e.op = "many" /\ e.train)
                  THEN [s EXCEPT !.t = @ + c0.tick * e.steps] ELSE s
\* a deterministic choice, or any choice when the agent samples
Chosen(c, det, o, a) == IF det \/ Greedy(c) THEN IsBest(c, o, a) ELSE Legal(c, o, a)
EvalFails(c, s, e) ==
  C("evaluation returns one action per observation", Len(e.a) = Len(e.obs))
  \cup C("evaluation does not consult the explorer", e.asked = <<>>)
  \cup C(IF c.det \/ Greedy(c) THEN "evaluation acts greedily" ELSE "actions are legal",
         \A k \in 1..Len(e.obs) : Chosen(c, c.det, e.obs[k], e.a[k]))
TrainFails(c, s, e) ==
  LET n == Len(e.obs)
      burn == c.burnin /\ e.upd = 0
      asks == c.expl /\ ~burn
  IN C("training returns one action per observation", Len(e.a) = n)
     \cup C("without an explorer, actions are those of the policy",
            (~c.expl /\ ~burn) => \A k \in 1..n : Chosen(c, c.traindet, e.obs[k], e.a[k]))
     \cup C("initial actions are those of burnin_action_func, and only those",
            IF burn THEN e.burned = e.a ELSE e.burned = <<>>)
     \cup C("the explorer is consulted exactly once per env", Len(e.asked) = IF asks THEN n ELSE 0)
     \cup (IF asks /\ Len(e.asked) = n
           THEN C("the explorer is told the number of steps trained so far",
                  \A k \in 1..n : e.asked[k].t = s.t)
                \cup C("the explorer is offered the greedy action of its own env",
                  \A k \in 1..n : Chosen(c, FALSE, e.obs[k], e.asked[k].g))
                \cup C("the explorer is offered the action values of its own env",
                  \A k \in 1..n : c.av => e.asked[k].av = <<Q4(Row(c, e.obs[k]))>>)
                \cup C("the explorer's choice is what the agent does",
                  \A k \in 1..n : e.a[k] = e.asked[k].ret)
           ELSE {})
Clamp(p) == Max2(1, Min2(p, K - 1))
ManyFails(c, s, e) ==
  LET o == e.obs[1]
      r == Row(c, o).rows[1]
      det == IF e.train THEN c.traindet ELSE c.det
      P(k) == IF c.mode = "cat" THEN r.p[k] \div 16
              ELSE LET t == IF c.mode = "squ" THEN Unsquash(<<e.thr[k]>>)[1] ELSE e.thr[k]
                   IN Below(r, k, t)
  IN IF det THEN C("deterministic agents always choose the most probable action",
                   \A k \in 1..Len(e.kinds) : IsBest(c, o, e.kinds[k]))
     ELSE C("sampled actions follow the policy's distribution",
            \A k \in 1..Len(e.cnt) : FreqOK(e.cnt[k], e.N, Clamp(P(k)), K))
Fails(c0, s, e) ==
  LET c == s.c
  IN IF e.exc # "" THEN {"acting raised an exception"}
     ELSE C("actions have the type and shape of actions", e.shape)
          \cup CASE e.op = "act" -> EvalFails(c, s, e)
                 [] e.op = "train" -> TrainFails(c, s, e)
                 [] e.op = "many" -> ManyFails(c, s, e)
                 [] OTHER -> {}
INSTANCE TraceBase
=====================================================================================
