------------------------------- MODULE EvalRun -------------------------------
(* Running an agent without training it: serial evaluation (scores) and      *)
(* demonstrations (records).  c: steps, eps (exactly one of them not 0),     *)
(* maxlen (0: none), kind                                                    *)
EXTENDS Util

ER0(c) == [ph |-> "start", t |-> 0, len |-> 0, ret |-> 0, obs |-> 0, a |-> 0,
           ended |-> FALSE, told |-> FALSE, scores |-> <<>>, recs |-> <<>>,
           fresh |-> 0]
Term(c, s) == IF c.eps > 0 THEN Len(s.scores) >= c.eps ELSE s.t >= c.steps

ERFails(c, s, e) ==
  CASE e.op = "reset" ->
         C("the env is reset exactly once before each episode",
           s.ph = "start" \/ (s.ph = "post" /\ s.ended /\ s.told))
         \cup C("no episode is started after the last one",
                s.ph = "post" => ~Term(c, s))
    [] e.op = "eact" ->
         C("the agent acts once per step of a running episode",
           s.ph = "act" \/ (s.ph = "post" /\ ~s.ended))
         \cup C("exactly the steps or episodes requested are run",
                s.ph = "post" => ~Term(c, s))
         \cup C("the agent acts on the latest observation", e.obs = s.obs)
    [] e.op = "step" ->
         C("the env is stepped once per action, with that action",
           s.ph = "step" /\ e.a = s.a)
    [] e.op = "estop" ->
         C("the agent is told once when an episode stops, and at the end",
           s.ph = "post" /\ ~s.told /\ (s.ended \/ Term(c, s)))
    [] e.op = "end" ->
         C("exactly the steps or episodes requested are run",
           s.ph = "post" /\ Term(c, s))
         \cup C("the agent is told that the last episode stopped", s.told)
         \cup C("every score is the sum of the rewards of its episode",
                c.kind = "eval" =>
                e.scores = IF s.scores = <<>> THEN <<s.ret>> ELSE s.scores)
         \cup C("the statistics are those of the scores",
                (c.kind = "eval" /\ e.stats # <<>>) =>
                   /\ e.stats[1] = Len(e.scores) /\ e.stats[2] = Sum(e.scores)
                   /\ e.stats[3] \in Range(e.scores) /\ e.stats[4] \in Range(e.scores)
                   /\ \A x \in Range(e.scores) : x <= e.stats[3] /\ x >= e.stats[4])
         \cup C("one record per step, as experienced",
                c.kind = "demo" => e.recs = s.recs)
    [] OTHER -> {"no other call is made: " \o e.op}
ERPost(c, s, e) ==
  CASE e.op = "reset" -> [s EXCEPT !.ph = "act", !.obs = e.obs, !.len = 0, !.ret = 0,
                                   !.ended = FALSE, !.told = FALSE]
    [] e.op = "eact" -> [s EXCEPT !.ph = "step", !.a = e.a]
    [] e.op = "step" ->
         LET ended == e.done \/ e.nr \/ (c.maxlen > 0 /\ s.len + 1 = c.maxlen)
         IN [s EXCEPT !.ph = "post", !.t = @ + 1, !.len = @ + 1, !.ret = @ + e.r,
                      !.obs = e.obs, !.ended = ended, !.told = FALSE,
                      !.scores = IF ended THEN Append(@, s.ret + e.r) ELSE @,
                      !.recs = IF c.kind = "demo"
                               THEN Append(@, [obs |-> s.obs, a |-> e.a, r |-> e.r,
                                               nobs |-> e.obs, done |-> e.done, nr |-> e.nr,
                                               k |-> s.t + 1])
                               ELSE @]
    [] e.op = "estop" -> [s EXCEPT !.told = TRUE]
    [] e.op = "end" -> [s EXCEPT !.ph = "end"]
    [] OTHER -> s
==============================================================================
