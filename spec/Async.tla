-------------------------------- MODULE Async --------------------------------
(* Asynchronous training seen from outside: the interleaved calls made to    *)
(* the envs, agents and hooks of all workers.  Every worker blocks in a call *)
(* until it is let go, so what it does after a call happens after the call   *)
(* was recorded.                                                             *)
(* c: n (workers), steps, maxlen, hooks (>= 1), ev, succ                     *)
EXTENDS Util

AW0 == [ph |-> "start", obs |-> 0, r |-> 0, a |-> 0, len |-> 0, done |-> FALSE,
        nr |-> FALSE, t |-> 0, hk |-> 0, win |-> FALSE, mayend |-> FALSE,
        mustend |-> FALSE, over |-> FALSE, fin |-> 0, succ |-> 0]
AS0(c) == [w |-> [i \in 1..c.n |-> AW0], used |-> {}, total |-> 0,
           won |-> FALSE, saved |-> FALSE, ended |-> FALSE]

\* reasons of w itself to end its episode
Own(c, x) == x.done \/ x.nr \/ (c.maxlen > 0 /\ x.len = c.maxlen) \/ x.t >= c.steps

\* a whole run of freely running workers: the global numbers each of them saw
Summary(c, e) ==
  LET all == Flat(e.ts)
      over == {k \in 1..Len(all) : all[k] >= c.steps}
  IN C("every worker stops by itself", e.ok)
     \cup C("global steps are numbered without gaps, once each",
            Distinct(all) /\ Range(all) = 1..Len(all) /\ Len(all) = Sum(e.steps))
     \cup C("numbers grow in each worker",
            \A i \in 1..c.n : \A k \in 1..(Len(e.ts[i]) - 1) : e.ts[i][k] < e.ts[i][k + 1])
     \cup C("hooks are called once per global step", e.hooks = c.hooks * Len(all))
     \cup C("training goes on until the requested steps or success",
            Len(all) >= c.steps \/ e.won)
     \cup C("a worker stops at the step during which training was over",
            \A i \in 1..c.n : Cardinality({k \in 1..Len(e.ts[i]) : e.ts[i][k] >= c.steps}) <= 1)
     \cup C("exactly one worker saves the final agent when the steps are reached, otherwise none",
            Flat(e.finish) = IF Len(all) >= c.steps THEN <<c.steps>> ELSE <<>>)
     \cup C("exactly one worker saves the successful agent on success, otherwise none",
            Sum(e.succ) = IF e.won THEN 1 ELSE 0)

ASFails(c, s, e) ==
  IF e.op = "end" THEN
    C("every worker stops by itself", e.ok /\ \A i \in 1..c.n : s.w[i].ph = "stop")
    \cup C("global steps are numbered without gaps", s.used = 1..s.total)
    \cup C("training goes on until the requested steps or success",
           s.total >= c.steps \/ s.won)
    \cup C("exactly one worker saves the final agent when the steps are reached, otherwise none",
           SumOver(1..c.n, LAMBDA i : s.w[i].fin) = IF s.total >= c.steps THEN 1 ELSE 0)
    \cup C("exactly one worker saves the successful agent on success, otherwise none",
           SumOver(1..c.n, LAMBDA i : s.w[i].succ) = IF s.won THEN 1 ELSE 0)
  ELSE IF e.op = "summary" THEN Summary(c, e)
  ELSE LET x == s.w[e.w] IN
  CASE e.op = "reset" ->
         C("an env is reset at the start and after an episode ended",
           x.ph = "start" \/ x.ph = "stop")
         \cup C("a worker stops once training is over",
                x.ph = "stop" => x.t < c.steps /\ ~x.win /\ ~x.over)
    [] e.op = "act" ->
         C("a worker acts once per step, in a running episode",
           x.ph = "act" \/ (x.ph = "post" /\ x.hk = c.hooks /\ ~Own(c, x)))
         \cup C("a worker stops after the step during which training was over",
                ~x.mustend)
         \cup C("the agent acts on the latest observation of its env", e.obs = x.obs)
         \cup C("the agent is given the reward of its previous action", e.r = x.r)
    [] e.op = "step" ->
         C("an env is stepped once per action, with that action",
           x.ph = "step" /\ e.a = x.a)
    [] e.op = "hook" ->
         C("hooks are called once per step in order",
           x.ph = "post" /\ e.j = x.hk + 1 /\ e.j <= c.hooks)
         \cup C("every step has its own global number",
                e.j = 1 => /\ e.t \notin s.used /\ e.t > x.t
                           /\ e.t <= s.total)
         \cup C("all hooks get the number of the step", e.j > 1 => e.t = x.t)
         \cup C("hooks get the env and agent of the worker", e.same)
    [] e.op = "stop" ->
         C("the agent is told once that the episode ended, when it did",
           x.ph = "post" /\ x.hk = c.hooks /\ (Own(c, x) \/ s.won))
         \cup C("the agent is told the final observation and reward",
                e.obs = x.obs /\ e.r = x.r)
         \cup C("done is told exactly when the env reported done",
                e.done = x.done)
    [] e.op = "estep" -> C("evaluations run between episodes", c.ev /\ x.ph = "stop" /\ ~x.win)
    [] e.op = "ereset" -> C("evaluations run between episodes", c.ev /\ x.ph = "stop" /\ ~x.win)
    [] e.op = "best" -> C("evaluations run between episodes", c.ev /\ x.ph = "stop")
    [] e.op = "finish" ->
         C("the final agent is saved by the worker that took the last step, once",
           x.ph = "stop" /\ x.t = c.steps /\ x.fin = 0 /\ e.t = c.steps)
    [] e.op = "successful" ->
         C("the successful agent is saved by a worker that succeeded, once",
           x.ph = "stop" /\ x.win /\ x.succ = 0)
    [] e.op = "close" -> {}
    [] OTHER -> {"no other call is made: " \o e.op}

ASPost(c, s, e) ==
  IF e.op \in {"end", "summary"} THEN [s EXCEPT !.ended = TRUE]
  ELSE LET x == s.w[e.w]
           Up(y) == [s EXCEPT !.w[e.w] = y]
  IN
  CASE e.op = "reset" -> Up([x EXCEPT !.ph = "act", !.obs = e.obs, !.r = 0, !.len = 0,
                             !.done = FALSE, !.nr = FALSE])
    [] e.op = "act" -> Up([x EXCEPT !.ph = "step", !.a = e.a])
    [] e.op = "step" ->
         [Up([x EXCEPT !.ph = "post", !.len = @ + 1, !.obs = e.obs, !.r = e.r,
                       !.done = e.done, !.nr = e.nr, !.hk = 0])
            EXCEPT !.total = @ + 1]
    [] e.op = "hook" ->
         [Up([x EXCEPT !.hk = @ + 1, !.t = e.t, !.mustend = s.saved])
            EXCEPT !.used = @ \cup {e.t}]
    [] e.op = "stop" -> Up([x EXCEPT !.ph = "stop", !.over = s.saved])
    [] e.op = "estep" -> [Up([x EXCEPT !.win = c.succ >= 0 /\ e.score >= c.succ])
                            EXCEPT !.won = @ \/ (c.succ >= 0 /\ e.score >= c.succ)]
    [] e.op = "finish" -> Up([x EXCEPT !.fin = @ + 1])
    \* after the successful agent is saved, everybody must know
    [] e.op = "successful" -> [Up([x EXCEPT !.succ = @ + 1]) EXCEPT !.saved = TRUE]
    [] OTHER -> s
==============================================================================
