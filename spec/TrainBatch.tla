------------------------------ MODULE TrainBatch ------------------------------
(* The batch training loop as a protocol between the loop, the vector env,   *)
(* the agent, hooks, evaluator and checkpoints (cf. TrainLoop).              *)
(* c: n (envs), steps, off, maxlen, freq, hooks, ev, succ                    *)
EXTENDS Util

Zs(c) == [i \in 1..c.n |-> 0]
Fs(c) == [i \in 1..c.n |-> FALSE]
TB0(c) == [ph |-> "start", t |-> c.off, len |-> Zs(c), hk |-> 0,
           evald |-> FALSE, chk |-> {}, obs |-> Zs(c), r |-> Zs(c),
           a |-> Zs(c), done |-> Fs(c), nr |-> Fs(c), eps |-> 0,
           succ |-> FALSE, saves |-> 0, exc |-> "", closed |-> {},
           wasreset |-> FALSE]

Over(c, s) == s.t >= c.steps \/ s.succ
Resets(c, s) == [i \in 1..c.n |-> s.nr[i] \/ (c.maxlen > 0 /\ s.len[i] = c.maxlen)]
Ended(c, s) == {i \in 1..c.n : s.done[i] \/ Resets(c, s)[i]}
\* the counter advances by n at every batch step; hk hook calls of it are made
T0(c, s) == s.t - c.n
DueChks(c, s) == IF c.freq = 0 THEN {}
                 ELSE {t \in (T0(c, s) + 1)..s.t : t % c.freq = 0}
\* t values of this batch step already announced by hooks
CurT(c, s) == IF c.hooks = 0 THEN s.t
              ELSE T0(c, s) + Min2(c.n, (s.hk \div c.hooks) + 1)
PostDone(c, s) == /\ s.hk = c.n * c.hooks
                  /\ s.chk = DueChks(c, s)
                  /\ c.ev => s.evald

TBFails(c, s, e) ==
  CASE e.op = "reset" ->
         C("all envs are reset at the start", s.ph = "start" => e.reset = 1..c.n)
         \cup C("envs are reset only at the start and after a batch step",
                s.ph = "start" \/ (s.ph = "post" /\ ~s.wasreset))
         \cup C("no env is reset once training is over", s.ph = "post" => ~Over(c, s))
         \cup C("exactly the envs whose episode ended are reset",
                s.ph = "post" => e.reset = Ended(c, s))
         \cup C("hooks, checkpoints and evaluation come first",
                s.ph = "post" => PostDone(c, s))
    [] e.op = "act" ->
         C("the agent acts once per batch step",
           s.ph = "act" \/ (s.ph = "post" /\ (s.wasreset \/ Ended(c, s) = {})))
         \cup C("no step is taken once training is over", s.ph = "post" => ~Over(c, s))
         \cup C("hooks are called and checkpoints saved for every step counted",
                s.ph = "post" => PostDone(c, s))
         \cup C("the agent acts on the latest observations of all envs", e.obs = s.obs)
    [] e.op = "step" ->
         C("the envs are stepped once, with the agent's actions",
           s.ph = "step" /\ e.a = s.a)
    [] e.op = "observe" ->
         C("the agent observes every batch step once", s.ph = "observe")
         \cup C("the agent observes the new observations of all envs", e.obs = s.obs)
         \cup C("the agent observes the rewards of this step", e.r = s.r)
         \cup C("the agent observes the dones of this step", e.done = s.done)
         \cup C("resets are told exactly at the limit or on request",
                e.reset = Resets(c, s))
    [] e.op = "hook" ->
         C("hooks are called in order, once for each step counted",
           /\ s.ph = "post" /\ s.hk < c.n * c.hooks
           /\ e.j = (s.hk % c.hooks) + 1)
         \cup C("hooks get consecutive step numbers",
                c.hooks > 0 => e.t = T0(c, s) + (s.hk \div c.hooks) + 1)
         \cup C("hooks get the env and the agent", e.same)
    [] e.op = "chk" ->
         C("checkpoints are saved once at every multiple of checkpoint_freq",
           s.ph = "post" /\ e.t \in DueChks(c, s) \ s.chk)
    [] e.op = "eval" ->
         C("the evaluator is called once per batch step",
           c.ev /\ s.ph = "post" /\ ~s.evald /\ s.hk = c.n * c.hooks)
         \cup C("the evaluator is given the step and the finished episodes",
                e.t = s.t /\ e.episodes = s.eps)
    [] e.op = "finish" ->
         C("the final agent is saved once, when training is over",
           /\ Over(c, s) /\ s.ph = "post" /\ PostDone(c, s)
           /\ s.saves = 0 /\ e.t = s.t)
    [] e.op = "raise" -> {}
    [] e.op = "except" ->
         C("the agent is saved on an exception, exactly once", s.ph = "exc" /\ s.saves = 0)
         \cup C("the checkpoint is named after the number of steps counted", e.t = s.t)
    [] e.op = "close" -> C("envs are closed only on failure", s.ph = "exc")
    [] e.op = "end" ->
         C("a run that does not fail saves the final agent exactly once",
           s.exc = "" => s.ph = "fin" /\ s.saves = 1)
         \cup C("a failing run saves the agent exactly once", s.exc # "" => s.saves = 1)
         \cup C("a failing run closes the training and evaluation envs",
                s.exc # "" => {"env"} \cup (IF c.ev THEN {"evalenv"} ELSE {}) \subseteq s.closed)
         \cup C("exactly the exception raised is propagated", e.exc = s.exc)
    [] OTHER -> {"no other call is made: " \o e.op}

TBPost(c, s, e) ==
  CASE e.op = "reset" ->
         [s EXCEPT !.ph = IF s.ph = "start" THEN "act" ELSE "post",
                   !.wasreset = TRUE,
                   !.obs = [i \in 1..c.n |-> IF i \in e.reset THEN e.obs[i] ELSE s.obs[i]],
                   !.len = [i \in 1..c.n |-> IF i \in e.reset THEN 0 ELSE s.len[i]]]
    [] e.op = "act" ->
         [s EXCEPT !.ph = "step", !.a = e.a,
                   !.len = [i \in 1..c.n |-> s.len[i]]]
    [] e.op = "step" ->
         [s EXCEPT !.ph = "observe", !.len = [i \in 1..c.n |-> s.len[i] + 1],
                   !.r = e.r, !.obs = e.obs, !.done = e.done, !.nr = e.nr,
                   !.hk = 0, !.evald = FALSE, !.chk = {}, !.wasreset = FALSE]
    [] e.op = "observe" -> [s EXCEPT !.ph = "post", !.t = @ + c.n,
                                     !.eps = @ + Cardinality(Ended(c, s))]
    [] e.op = "hook" -> [s EXCEPT !.hk = @ + 1]
    [] e.op = "chk" -> [s EXCEPT !.chk = @ \cup {e.t}]
    [] e.op = "eval" -> [s EXCEPT !.evald = TRUE,
                                  !.succ = c.succ >= 0 /\ e.best >= c.succ]
    [] e.op = "finish" -> [s EXCEPT !.ph = "fin", !.saves = @ + 1]
    \* a hook that raises was called for a step already counted, the ones
    \* after it are not
    [] e.op = "raise" ->
         [s EXCEPT !.ph = "exc", !.exc = e.exc,
                   !.t = IF e.where = "hook" THEN CurT(c, s) ELSE @]
    [] e.op = "except" -> [s EXCEPT !.saves = @ + 1]
    [] e.op = "close" -> [s EXCEPT !.closed = @ \cup {e.src}]
    [] e.op = "end" -> [s EXCEPT !.ph = "end"]
    [] OTHER -> s
==============================================================================
