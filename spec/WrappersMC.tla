------------------------------ MODULE WrappersMC ------------------------------
(* The wrappers as algorithms over an arbitrary base env: all the calls they *)
(* make must be accepted, and the game they present must be consistent.      *)
EXTENDS Wrappers
CONSTANTS MaxCalls
VARIABLES c, s, pc, inner, op, out, fl, n, g
vars == <<c, s, pc, inner, op, out, fl, n, g>>
Confs == {[kind |-> "life"], [kind |-> "skip", skip |-> 1], [kind |-> "skip", skip |-> 3],
          [kind |-> "noop", override |-> 0, max |-> 2], [kind |-> "fire"],
          [kind |-> "tl", limit |-> 2], [kind |-> "stack", k |-> 2], [kind |-> "clip"]}
Init == /\ c \in Confs /\ s = W0(c) /\ pc = "out" /\ inner = <<>> /\ op = ""
        /\ out = [over |-> TRUE] /\ fl = {} /\ n = 0
        \* the game: reward so far inside and outside, episodes inside
        /\ g = [in |-> 0, outr |-> 0, dead |-> TRUE, bad |-> FALSE, k |-> 0]
Steps(q) == Len(SelectSeq(q, LAMBDA x : x.op = "step"))
B == {TRUE, FALSE}
\* the base env answers a call
Ans(o, a) == IF o = "reset" THEN {[op |-> "reset", a |-> 0, obs |-> <<n % 2>>, r |-> 0,
                                  done |-> FALSE, nr |-> FALSE, lives |-> 2]}
             ELSE [op : {"step"}, a : {a}, obs : {<<0>>, <<1>>}, r : {-2, 3}, done : B, nr : B,
                   lives : {1, 2}]
Base(o, a, next(_)) ==
  \E x \in Ans(o, a) :
     /\ inner' = Append(inner, x) /\ pc' = next(x)
     /\ g' = [g EXCEPT !.in = @ + x.r, !.bad = @ \/ (o = "step" /\ g.dead),
                       !.dead = IF o = "reset" THEN FALSE ELSE Ended(x)]
     /\ UNCHANGED <<c, s, op, out, fl, n>>
\* the agent calls; it resets exactly when told (or at any time)
Call == /\ pc = "out" /\ fl = {} /\ n < MaxCalls /\ n' = n + 1
        /\ \E o \in {"reset", "step"} :
             /\ op' = o /\ (out.over => o = "reset")
             /\ pc' = IF o = "reset" /\ c.kind = "life" /\ ~s.fin THEN "lifenoop"
                      ELSE IF o = "step" THEN "step" ELSE "reset"
        /\ inner' = <<>> /\ UNCHANGED <<c, s, out, fl, g>>
Step == pc = "step" /\ Base("step", 1, LAMBDA x :
          IF c.kind = "skip" /\ ~Ended(x) /\ Len(inner) + 1 < c.skip THEN "step" ELSE "ret")
Reset == pc = "reset" /\ Base("reset", 0, LAMBDA x :
          IF c.kind = "noop" /\ Steps(inner) < c.max THEN "noop"
          ELSE IF c.kind = "fire" /\ Steps(inner) < 2 THEN "fire" ELSE "ret")
Noop == pc = "noop" /\ \/ Steps(inner) > 0 /\ pc' = "ret" /\ UNCHANGED <<c, s, inner, op, out, fl, n, g>>
                       \/ Base("step", 0, LAMBDA x :
                           IF Ended(x) THEN "reset"
                           ELSE IF Steps(inner) + 1 < c.max THEN "noop" ELSE "ret")
Fire == pc = "fire" /\ Base("step", Steps(inner) + 1, LAMBDA x :
           IF Ended(x) THEN "reset" ELSE IF Steps(inner) + 1 < 2 THEN "fire" ELSE "ret")
LifeNoop == pc = "lifenoop" /\ Base("step", 0, LAMBDA x : IF Ended(x) THEN "reset" ELSE "ret")
Res == LET x == inner[Len(inner)] m == Len(inner)
       IN [op |-> op, a |-> 1, inner |-> inner, raised |-> FALSE,
           obs |-> IF c.kind = "skip" /\ op = "step" /\ m > 1
                   THEN PixMax(inner[m - 1].obs, x.obs)
                   ELSE IF c.kind = "stack"
                   THEN (IF op = "reset" THEN x.obs \o x.obs ELSE s.frames[2] \o x.obs)
                   ELSE x.obs,
           r |-> IF c.kind = "clip" THEN Sign(x.r)
                 ELSE Sum([k \in 1..m |-> inner[k].r]),
           done |-> x.done \/ (c.kind = "life" /\ op = "step" /\ x.lives < s.lives /\ x.lives > 0),
           nr |-> x.nr \/ (c.kind = "tl" /\ op = "step" /\ s.t + 1 >= c.limit)]
Ret == /\ pc = "ret" /\ pc' = "out"
       /\ LET e == Res IN /\ fl' = WFails(c, s, e) /\ s' = WPost(c, s, e)
                          /\ out' = [over |-> op = "step" /\ (e.done \/ e.nr)]
                          /\ g' = [g EXCEPT !.outr = @ + (IF op = "step" THEN e.r ELSE 0),
                                            !.in = IF op = "step" THEN @ ELSE g.outr]
       /\ inner' = <<>> /\ UNCHANGED <<c, op, n>>
Next == Call \/ Step \/ Reset \/ Noop \/ Fire \/ LifeNoop \/ Ret
Accepted == fl = {}
NeverDead == ~g.bad
RewardKept == pc = "out" /\ c.kind # "clip" => g.in = g.outr
Alive == pc = "out" /\ op = "reset" => ~g.dead
===============================================================================
