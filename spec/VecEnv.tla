-------------------------------- MODULE VecEnv --------------------------------
(* A vector env is n independent envs called in lock step.  The observable    *)
(* semantics of one env is a hash of the calls it received, so that a call    *)
(* that is lost, repeated, reordered, misdirected or given another argument   *)
(* changes everything the env answers from then on.                           *)
EXTENDS Util
M == 9973
HStep(h, a) == (31 * h + 2 + 7 * a) % M
HReset(h) == (31 * h + 1) % M
HSeed(h, s) == (31 * h + 3 + 13 * s) % M
Rew(h) == (h % 5) - 2
Done(h) == h % 7 = 0

V0(c) == [h |-> [k \in 1..c.n |-> k], last |-> [k \in 1..c.n |-> 0],
           on |-> FALSE, closed |-> FALSE]

Rejected(e) == C("use after close is rejected", e.raised)
VFails(c, s, e) ==
  IF s.closed /\ e.op # "recheck"
  THEN (IF c.mp THEN Rejected(e) ELSE {})
  ELSE IF e.op = "recheck"
  THEN C("results returned earlier do not change", e.same)
  ELSE C("the call succeeds", ~e.raised) \cup (IF e.raised THEN {} ELSE
  CASE e.op = "step" ->
         LET h == [k \in 1..c.n |-> HStep(s.h[k], e.a[k])]
         IN C("each env steps with its own action, in index order", e.obs = h)
            \cup C("rewards are those of each env", e.r = [k \in 1..c.n |-> Rew(h[k])])
            \cup C("dones are those of each env", e.done = [k \in 1..c.n |-> Done(h[k])])
            \cup C("infos are those of each env", e.info = h)
    [] e.op = "reset" ->
         C("exactly the envs not masked out are reset, the others keep their last observation",
           e.obs = [k \in 1..c.n |-> IF e.mask[k] THEN s.last[k] ELSE HReset(s.h[k])])
    [] e.op = "seed" -> {}
    [] e.op = "close" ->
         C("every env is closed once", \A k \in 1..c.n : e.closed[k] = 1)
         \cup C("every worker process ends", e.alive = 0)
    [] e.op = "spaces" ->
         C("spaces and spec are those of the first env",
           e.na = 3 /\ e.shape = <<1>> /\ e.spec = "vec-1" /\ e.n = c.n))

VPost(c, s, e) ==
  IF e.raised \/ s.closed THEN s ELSE
  CASE e.op = "step" -> [s EXCEPT !.h = [k \in 1..c.n |-> HStep(@[k], e.a[k])], !.last = e.obs]
    [] e.op = "reset" -> [s EXCEPT !.h = [k \in 1..c.n |-> IF e.mask[k] THEN @[k] ELSE HReset(@[k])],
                                 !.last = e.obs]
    [] e.op = "seed" -> [s EXCEPT !.h = [k \in 1..c.n |-> HSeed(@[k], e.s[k])]]
    [] e.op = "close" -> [s EXCEPT !.closed = TRUE]
    [] OTHER -> s
===============================================================================
