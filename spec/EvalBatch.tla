------------------------------ MODULE EvalBatch ------------------------------
(* Evaluation in a vector env.  Episodes are numbered in the order in which  *)
(* they start (env order within a batch step).                               *)
(* c: n, steps, eps (exactly one not 0), maxlen                              *)
EXTENDS Util

EB0(c) == [ph |-> "start", eps |-> [i \in 1..c.n |-> [env |-> i, len |-> 0, ret |-> 0, full |-> FALSE]],
           cur |-> [i \in 1..c.n |-> i], obs |-> [i \in 1..c.n |-> 0],
           a |-> <<>>, ended |-> {}, last |-> [i \in 1..c.n |-> FALSE],
           r |-> <<>>, done |-> <<>>, wasreset |-> FALSE]
\* number of episodes complete in starting order
Prefix(s) == CHOOSE k \in 0..Len(s.eps) :
               /\ \A j \in 1..k : s.eps[j].full
               /\ k < Len(s.eps) => ~s.eps[k + 1].full
Lens(s, k) == Sum([j \in 1..k |-> s.eps[j].len])
\* nothing that can happen later changes the result
Determined(c, s) ==
  LET k == Prefix(s)
  IN IF c.eps > 0 THEN k >= c.eps
     ELSE Lens(s, k) + (IF k < Len(s.eps) THEN s.eps[k + 1].len ELSE 0) >= c.steps
Result(c, s) ==
  IF c.eps > 0 THEN [j \in 1..c.eps |-> s.eps[j].ret]
  ELSE LET m == CHOOSE k \in 0..Prefix(s) :
                  /\ Lens(s, k) <= c.steps
                  /\ k < Prefix(s) => Lens(s, k + 1) > c.steps
       IN IF m = 0 THEN <<s.eps[1].ret>> ELSE [j \in 1..m |-> s.eps[j].ret]
\* the envs whose episode ended at this step; len counts this step
Ends(c, s, e) == {i \in 1..c.n : \/ e.done[i] \/ e.nr[i]
                                 \/ (c.maxlen > 0 /\ s.eps[s.cur[i]].len + 1 = c.maxlen)}
RECURSIVE Start(_, _, _, _)
\* start a new episode in the ended envs, in env order
Start(eps, cur, ended, i) ==
  IF i > Len(cur) THEN <<eps, cur>>
  ELSE IF i \in ended
       THEN Start(Append(eps, [env |-> i, len |-> 0, ret |-> 0, full |-> FALSE]),
                  [cur EXCEPT ![i] = Len(eps) + 1], ended, i + 1)
       ELSE Start(eps, cur, ended, i + 1)

EBFails(c, s, e) ==
  CASE e.op = "reset" ->
         C("all envs are reset at the start", s.ph = "start" => e.reset = 1..c.n)
         \cup C("exactly the envs whose episode ended are reset",
                s.ph # "start" => s.ph = "post" /\ ~s.wasreset /\ e.reset = s.ended)
         \cup C("no env is reset after the end", s.ph = "post" => ~Determined(c, s))
    [] e.op = "eact" ->
         C("the agent acts once per batch step",
           s.ph = "act" \/ (s.ph = "post" /\ (s.wasreset \/ s.ended = {})))
         \cup C("no step is taken once the scores are settled",
                s.ph = "post" => ~Determined(c, s))
         \cup C("the agent acts on the latest observations", e.obs = s.obs)
    [] e.op = "step" ->
         C("the envs are stepped once, with the agent's actions",
           s.ph = "step" /\ e.a = s.a)
    [] e.op = "eobserve" ->
         C("the agent observes every batch step once", s.ph = "observe")
         \cup C("the agent observes what happened in all envs",
                e.obs = s.obs /\ e.r = s.r /\ e.done = s.done)
         \cup C("resets are told at the limit, on request, and for all envs at the last step",
                e.reset = [i \in 1..c.n |-> s.last[i] \/ Determined(c, s)])
    [] e.op = "end" ->
         C("evaluation goes on until the scores are settled",
           s.ph = "post" /\ Determined(c, s))
         \cup C("the scores are the returns of the first episodes in starting order",
                (s.ph = "post" /\ Determined(c, s)) => e.scores = Result(c, s))
    [] OTHER -> {"no other call is made: " \o e.op}
EBPost(c, s, e) ==
  CASE e.op = "reset" ->
         [s EXCEPT !.ph = IF s.ph = "start" THEN "act" ELSE "post", !.wasreset = TRUE,
                   !.obs = [i \in 1..c.n |-> IF i \in e.reset THEN e.obs[i] ELSE s.obs[i]]]
    [] e.op = "eact" -> [s EXCEPT !.ph = "step", !.a = e.a]
    [] e.op = "step" ->
         LET ended == Ends(c, s, e)
             eps1 == [k \in 1..Len(s.eps) |->
                        LET x == s.eps[k] i == x.env
                        IN IF s.cur[i] # k THEN x
                           ELSE [x EXCEPT !.len = @ + 1, !.ret = @ + e.r[i],
                                          !.full = i \in ended]]
             st == Start(eps1, s.cur, ended, 1)
         IN [s EXCEPT !.ph = "observe", !.eps = st[1], !.cur = st[2],
                      !.ended = ended, !.obs = e.obs, !.r = e.r, !.done = e.done,
                      !.last = [i \in 1..c.n |-> e.nr[i] \/ (c.maxlen > 0 /\ s.eps[s.cur[i]].len + 1 = c.maxlen)],
                      !.wasreset = FALSE]
    [] e.op = "eobserve" -> [s EXCEPT !.ph = "post"]
    [] e.op = "end" -> [s EXCEPT !.ph = "end"]
    [] OTHER -> s
==============================================================================
