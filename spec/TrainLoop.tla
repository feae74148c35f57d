------------------------------ MODULE TrainLoop ------------------------------
(* The serial training loop as a protocol between the loop, the env, the     *)
(* agent, hooks, evaluator and checkpoints.  Fails(c, s, e) names the rules  *)
(* event e breaks in state s, Post(c, s, e) is the state after it.           *)
(* c: steps, off, maxlen (0: none), freq (0: none), hooks (number), ev       *)
(*    (evaluator present), succ (successful score; -1: none)                 *)
EXTENDS Util

TL0(c) == [ph |-> "start", t |-> c.off, len |-> 0, hk |-> 0, stopped |-> FALSE,
           evald |-> FALSE, chk |-> FALSE, obs |-> 0, r |-> 0, a |-> 0,
           done |-> FALSE, nr |-> FALSE, eps |-> 0, succ |-> FALSE,
           saves |-> 0, exc |-> ""]

Over(c, s) == s.t >= c.steps \/ s.succ
EndNow(c, s) == \/ s.done \/ s.nr \/ (c.maxlen > 0 /\ s.len = c.maxlen)
                \/ s.t = c.steps
NeedChk(c, s) == c.freq > 0 /\ s.t > c.off /\ s.t % c.freq = 0 /\ ~Over(c, s)
EndHandled(c, s) == EndNow(c, s) => s.stopped /\ (c.ev => s.evald)
StepDone(c, s) == s.hk = c.hooks /\ EndHandled(c, s)

TLFails(c, s, e) ==
  CASE e.op = "reset" ->
         C("the env is reset exactly once, at the start and after an episode ended",
           s.ph = "start" \/ (s.ph = "post" /\ EndNow(c, s) /\ s.stopped))
         \cup C("the env is not reset after training is over",
           s.ph = "post" => ~Over(c, s))
         \cup C("hooks and evaluation of the last step come first",
           s.ph = "post" => StepDone(c, s))
    [] e.op = "act" ->
         C("the agent acts once per step, in a running episode",
           s.ph = "act" \/ (s.ph = "post" /\ ~EndNow(c, s)))
         \cup C("no step is taken once training is over", ~Over(c, s))
         \cup C("every hook is called once per step", s.ph = "post" => StepDone(c, s))
         \cup C("a checkpoint is saved at every multiple of checkpoint_freq",
                NeedChk(c, s) => s.chk)
         \cup C("the agent acts on the latest observation", e.obs = s.obs)
         \cup C("the agent is given the reward of its previous action", e.r = s.r)
    [] e.op = "step" ->
         C("the env is stepped once per action, with that action",
           s.ph = "step" /\ e.a = s.a)
    [] e.op = "hook" ->
         C("hooks are called once per step, in order",
           s.ph = "post" /\ e.j = s.hk + 1 /\ e.j <= c.hooks)
         \cup C("hooks get the current step number", e.t = s.t)
         \cup C("hooks get the env and the agent", e.same)
    [] e.op = "stop" ->
         C("the agent is told once that the episode ended, exactly when it did",
           s.ph = "post" /\ EndNow(c, s) /\ ~s.stopped)
         \cup C("the agent is told the final observation and reward",
                e.obs = s.obs /\ e.r = s.r)
         \cup C("done is told exactly when the env reported done",
                e.done = s.done)
    [] e.op = "eval" ->
         C("the evaluator is called once per episode end",
           c.ev /\ s.ph = "post" /\ s.stopped /\ ~s.evald)
         \cup C("the evaluator is given the step and the finished episodes",
                e.t = s.t /\ e.episodes = s.eps)
    [] e.op = "chk" ->
         C("checkpoints are saved exactly at multiples of checkpoint_freq before the last step",
           /\ NeedChk(c, s) /\ ~s.chk /\ e.t = s.t
           /\ s.ph = "act" \/ (s.ph = "post" /\ EndHandled(c, s)))
    [] e.op = "finish" ->
         C("the final agent is saved when training is over",
           /\ Over(c, s)
           /\ (s.ph = "post" /\ StepDone(c, s)) \/ (s.ph = "act" /\ s.t >= c.steps))
         \cup C("the final agent is saved exactly once, as the current step",
                s.saves = 0 /\ e.t = s.t)
    [] e.op = "raise" -> {}
    [] e.op = "except" ->
         C("the agent is saved on an exception, exactly once", s.ph = "exc" /\ s.saves = 0)
         \cup C("the checkpoint is named after the number of steps completed", e.t = s.t)
    [] e.op = "close" -> {}
    [] e.op = "end" ->
         C("a run that does not fail saves the final agent exactly once",
           s.exc = "" => s.ph = "fin" /\ s.saves = 1)
         \cup C("a failing run saves the agent exactly once", s.exc # "" => s.saves = 1)
         \cup C("exactly the exception raised is propagated", e.exc = s.exc)
    [] OTHER -> {"no other call is made: " \o e.op}

TLPost(c, s, e) ==
  CASE e.op = "reset" -> [s EXCEPT !.ph = "act", !.obs = e.obs, !.r = 0, !.len = 0,
                                   !.done = FALSE, !.nr = FALSE]
    [] e.op = "act" -> [s EXCEPT !.ph = "step", !.a = e.a]
    [] e.op = "step" ->
         [s EXCEPT !.ph = "post", !.t = @ + 1, !.len = @ + 1, !.r = e.r,
                   !.obs = e.obs, !.done = e.done, !.nr = e.nr, !.hk = 0,
                   !.stopped = FALSE, !.evald = FALSE, !.chk = FALSE]
    [] e.op = "hook" -> [s EXCEPT !.hk = @ + 1]
    [] e.op = "stop" -> [s EXCEPT !.stopped = TRUE, !.eps = @ + 1]
    [] e.op = "eval" -> [s EXCEPT !.evald = TRUE,
                                  !.succ = c.succ >= 0 /\ e.best >= c.succ]
    [] e.op = "chk" -> [s EXCEPT !.chk = TRUE]
    [] e.op = "finish" -> [s EXCEPT !.ph = "fin", !.saves = @ + 1]
    [] e.op = "raise" -> [s EXCEPT !.ph = "exc", !.exc = e.exc]
    [] e.op = "except" -> [s EXCEPT !.saves = @ + 1]
    [] e.op = "end" -> [s EXCEPT !.ph = "end"]
    [] OTHER -> s
==============================================================================
