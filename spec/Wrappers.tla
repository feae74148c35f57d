------------------------------- MODULE Wrappers -------------------------------
(* Env wrappers.  An event is one call to the outermost env: the calls it    *)
(* made to the base env (inner, with what they returned) and its result.     *)
(* c.kind names the wrapper, c.p are its parameters.                         *)
(* base call: [op, a, obs, r, done, nr, lives];                              *)
(* event: [op, a, inner, raised, obs, r, done, nr] + what the kind needs     *)
EXTENDS Util

W0(c) == [on |-> FALSE,      \* the base env has been reset
          fin |-> TRUE,      \* its episode ended (done or needs_reset)
          fresh |-> TRUE,    \* it was reset and not stepped since
          lives |-> 0, t |-> 0, frames |-> <<>>, obs |-> <<>>,
          \* finished episodes as <<length, return>>, and the current one
          eps |-> <<>>, len |-> 0, ret |-> 0]

\* running the base env through a sequence of calls
RECURSIVE BaseRun(_, _)
BaseRun(b, q) ==
  IF q = <<>> THEN b
  ELSE LET x == Head(q)
       IN BaseRun([fin |-> x.op = "step" /\ (x.done \/ x.nr \/ (x.op = "step" /\ b.fin)),
                   bad |-> b.bad \/ (x.op = "step" /\ b.fin),
                   resets |-> b.resets + (IF x.op = "reset" THEN 1 ELSE 0),
                   obs |-> x.obs, lives |-> x.lives], Tail(q))
Run(s, e) == BaseRun([fin |-> s.fin, bad |-> FALSE, resets |-> 0, obs |-> s.obs,
                      lives |-> s.lives], e.inner)

Lst(e) == e.inner[Len(e.inner)]
One(e, op) == Len(e.inner) = 1 /\ e.inner[1].op = op
NoReset(e) == \A k \in 1..Len(e.inner) : e.inner[k].op = "step"
Frames(e) == [k \in 1..Len(e.inner) |-> e.inner[k].obs]
Ended(x) == x.done \/ x.nr

\* what must be passed through unchanged
SameObs(e) == C("the observation is passed through", e.obs = Lst(e).obs)
SameReward(e) == C("the reward is passed through", e.r = Lst(e).r)
SameDone(e) == C("done is passed through", e.done = Lst(e).done)
SameInfo(e) == C("needs_reset is passed through", e.nr = Lst(e).nr)
OneStep(e) == C("one step of the env per step, with the action given",
                One(e, "step") /\ e.inner[1].a = e.a)
OneReset(e) == C("one reset of the env per reset", One(e, "reset"))

PixMax(x, y) == [k \in 1..Len(x) |-> Max2(x[k], y[k])]
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0

\* ----------------------------------------------------------------- steps
StepFails(c, s, e) ==
  CASE c.kind = "life" ->
         OneStep(e) \cup (IF ~One(e, "step") THEN {} ELSE
         SameObs(e) \cup SameReward(e) \cup SameInfo(e)
         \cup C("done is reported at the end of the game and when a life is lost with lives left",
                e.done = (Lst(e).done \/ (Lst(e).lives < s.lives /\ Lst(e).lives > 0))))
    [] c.kind = "skip" ->
         LET n == Len(e.inner) IN
         C("the action is repeated, and nothing else is played",
           n >= 1 /\ NoReset(e) /\ \A k \in 1..n : e.inner[k].a = e.a)
         \cup (IF n = 0 \/ ~NoReset(e) THEN {} ELSE
           C("frames are skipped until the skip count or the end",
             /\ n <= c.skip /\ \A k \in 1..(n - 1) : ~Ended(e.inner[k])
             /\ n = c.skip \/ Ended(e.inner[n]))
           \cup C("the rewards of the frames played are added up",
                  e.r = Sum([k \in 1..n |-> e.inner[k].r]))
           \cup C("the observation is the pixelwise maximum of the last two frames",
                  e.obs = IF n = 1 THEN e.inner[1].obs
                          ELSE PixMax(e.inner[n - 1].obs, e.inner[n].obs))
           \cup SameDone(e) \cup SameInfo(e))
    [] c.kind = "clip" ->
         OneStep(e) \cup (IF ~One(e, "step") THEN {} ELSE
         SameObs(e) \cup SameDone(e) \cup SameInfo(e)
         \cup C("the reward is the sign of the reward", e.r = Sign(Lst(e).r)))
    [] c.kind = "tl" ->
         OneStep(e) \cup (IF ~One(e, "step") THEN {} ELSE
         SameObs(e) \cup SameReward(e) \cup SameDone(e)
         \cup C("a reset is requested exactly at and past the limit",
                e.nr = (Lst(e).nr \/ s.t + 1 >= c.limit)))
    [] c.kind = "scale" ->
         OneStep(e) \cup (IF ~One(e, "step") THEN {} ELSE
         SameObs(e) \cup SameDone(e) \cup SameInfo(e)
         \cup C("the reward is scaled by the factor", 4 * e.r = c.scale4 * Lst(e).r * c.unit)
         \cup C("the original reward is kept", e.orig = Lst(e).r))
    [] c.kind \in {"cast", "float"} ->
         OneStep(e) \cup (IF ~One(e, "step") THEN {} ELSE
         SameReward(e) \cup SameDone(e) \cup SameInfo(e) \cup SameObs(e)
         \cup C("observations have the type asked for", e.dtype = c.dtype))
    [] c.kind = "normact" ->
         C("one step of the env per step", One(e, "step"))
         \cup (IF ~One(e, "step") THEN {} ELSE
         SameObs(e) \cup SameReward(e) \cup SameDone(e) \cup SameInfo(e)
         \* actions are given in quarters, received in eighths
         \cup C("actions map affinely onto the original bounds",
                \A k \in 1..Len(e.av) :
                   e.inner[1].av[k] = 8 * c.low[k] + (e.av[k] + 4) * (c.high[k] - c.low[k]))
         \cup C("the action given is not changed", e.kept))
    [] c.kind = "randact" ->
         C("one step of the env per step", One(e, "step"))
         \cup (IF ~One(e, "step") THEN {} ELSE
         SameObs(e) \cup SameReward(e) \cup SameDone(e) \cup SameInfo(e)
         \cup C("actions are legal", e.inner[1].a \in 0..(c.na - 1))
         \cup C("actions are kept with fraction 0", c.frac = 0 => e.inner[1].a = e.a))
    [] OTHER ->  \* noop, fire, render, pass, stack
         OneStep(e) \cup (IF ~One(e, "step") THEN {} ELSE
         SameReward(e) \cup SameDone(e) \cup SameInfo(e)
         \cup (IF c.kind = "stack"
               THEN C("the last k frames of the episode are returned, oldest first",
                      e.obs = Flat(SubSeq(s.frames \o <<Lst(e).obs>>, 2, c.k + 1)))
               ELSE SameObs(e)))

\* ---------------------------------------------------------------- resets
ResetFails(c, s, e) ==
  CASE c.kind = "life" ->
         LET q == e.inner IN
         IF s.fin THEN C("a real reset follows the end of the game", One(e, "reset"))
                       \cup (IF q # <<>> THEN SameObs(e) ELSE {})
         \* a game that has not begun may be restarted or played on
         ELSE IF s.fresh /\ One(e, "reset") THEN SameObs(e)
         ELSE C("otherwise the same game goes on with one no-op",
                q # <<>> /\ q[1].op = "step" /\ q[1].a = 0
                /\ Len(q) = IF Ended(q[1]) THEN 2 ELSE 1)
              \cup C("a real reset happens only if the game ended",
                     \A k \in 2..Len(q) : q[k].op = "reset" /\ Ended(q[k - 1]))
              \cup (IF q # <<>> THEN SameObs(e) ELSE {})
    [] c.kind = "noop" ->
         LET q == e.inner
             steps == SelectSeq(q, LAMBDA x : x.op = "step")
         IN C("the env is reset first", q # <<>> /\ q[1].op = "reset")
            \cup C("between 1 and noop_max no-ops are played",
                   /\ Len(steps) \in (IF c.override > 0 THEN {c.override} ELSE 1..c.max)
                   /\ \A k \in 1..Len(steps) : steps[k].a = 0)
            \cup C("the env is reset again exactly when it ended",
                   \A k \in 2..Len(q) : q[k].op = "reset" <=> (q[k - 1].op = "step" /\ Ended(q[k - 1])))
            \cup (IF q # <<>> THEN SameObs(e) ELSE {})
    [] c.kind = "fire" ->
         LET q == e.inner
             steps == SelectSeq(q, LAMBDA x : x.op = "step")
         IN C("the env is reset first", q # <<>> /\ q[1].op = "reset")
            \cup C("actions 1 and 2 are played",
                   Len(steps) = 2 /\ steps[1].a = 1 /\ steps[2].a = 2)
            \cup C("the env is reset again exactly when it ended",
                   \A k \in 2..Len(q) : q[k].op = "reset" <=> (q[k - 1].op = "step" /\ Ended(q[k - 1])))
            \cup (IF q # <<>> THEN SameObs(e) ELSE {})
    [] c.kind = "stack" ->
         OneReset(e) \cup C("the stack is filled with the reset observation",
            One(e, "reset") => e.obs = Flat([k \in 1..c.k |-> Lst(e).obs]))
    [] c.kind \in {"cast", "float"} ->
         OneReset(e) \cup (IF One(e, "reset") THEN SameObs(e) ELSE {})
         \cup C("observations have the type asked for", e.dtype = c.dtype)
    [] OTHER -> OneReset(e) \cup (IF One(e, "reset") THEN SameObs(e) ELSE {})

WFails(c, s, e) ==
  IF e.op = "recheck" THEN C("stacks returned earlier have not changed", e.same)
  ELSE IF e.op = "freq" THEN {}
  ELSE IF e.op = "kept"
  THEN C("envs that are not reset keep their stacks", e.obs = Flat(s.frames))
  ELSE IF e.op = "stats"
  THEN LET all == IF s.len > 0 THEN Append(s.eps, <<s.len, s.ret>>) ELSE s.eps
       IN C("every episode is recorded once with its true length",
            e.lens = [k \in 1..Len(all) |-> all[k][1]])
          \cup C("every episode is recorded with its total reward",
            e.rets = [k \in 1..Len(all) |-> all[k][2]])
  ELSE IF e.op = "step" /\ ~s.on /\ c.kind = "tl"
  THEN C("stepping before the first reset is rejected", e.raised /\ e.inner = <<>>)
  ELSE C("the call succeeds", ~e.raised)
       \cup (IF e.raised THEN {} ELSE
             (IF e.op = "step" THEN StepFails(c, s, e) ELSE ResetFails(c, s, e))
             \cup C("the env is never stepped after its episode ended",
                    e.op = "step" \/ ~Run(s, e).bad)
             \cup C("a reset leaves the env in a running episode",
                    e.op = "reset" => ~Run(s, e).fin))

WPost(c, s, e) ==
  IF e.op \in {"recheck", "freq", "kept", "stats"} \/ e.raised THEN s
  ELSE LET b == Run(s, e)
       IN [s EXCEPT !.on = @ \/ b.resets > 0, !.fin = b.fin,
                    !.fresh = IF e.inner = <<>> THEN @ ELSE Lst(e).op = "reset",
                    !.lives = b.lives,
                    !.obs = b.obs,
                    !.t = IF e.op = "reset" THEN 0 ELSE @ + 1,
                    !.eps = IF c.kind = "monitor" /\ s.len > 0 /\ e.op = "reset"
                            THEN Append(@, <<s.len, s.ret>>)
                            ELSE IF c.kind = "monitor" /\ e.op = "step" /\ e.done
                            THEN Append(@, <<s.len + 1, s.ret + e.r>>) ELSE @,
                    !.len = IF c.kind # "monitor" \/ e.op = "reset" \/ e.done THEN 0 ELSE @ + 1,
                    !.ret = IF c.kind # "monitor" \/ e.op = "reset" \/ e.done THEN 0 ELSE @ + e.r,
                    !.frames = IF c.kind # "stack" THEN @
                               ELSE IF e.op = "reset" THEN [k \in 1..c.k |-> Lst(e).obs]
                               ELSE SubSeq(@ \o <<Lst(e).obs>>, 2, c.k + 1)]
==============================================================================
