----------------------------- MODULE TrainBatchMC -----------------------------
(* All behaviours of the batch protocol, checked against what it is for.     *)
EXTENDS TrainBatch
CONSTANTS MaxSteps, N, Crash
VARIABLES c, s, n
Confs == [n : {N}, steps : 1..MaxSteps, off : {0, 1}, maxlen : {0, 2},
          freq : {0, 2}, hooks : {0, 2}, ev : BOOLEAN, succ : {-1, 1}]
B == {TRUE, FALSE}
V(x) == [i \in 1..N |-> x]
Init == /\ c \in {x \in Confs : x.off < x.steps /\ (x.ev \/ x.succ = -1)}
        /\ s = TB0(c)
        /\ n = [steps |-> 0, hooks |-> 0, live |-> V(FALSE), bad |-> FALSE,
                chks |-> {}, finals |-> 0, len |-> V(0), ends |-> 0,
                closed |-> {}]
Evs == [op : {"reset"}, reset : SUBSET (1..N), obs : {V(1)}]
       \cup [op : {"act"}, obs : {s.obs}, a : {V(0)}]
       \cup [op : {"step"}, a : {s.a}, obs : {V(2)}, r : {V(1)},
             done : [1..N -> B], nr : [1..N -> B]]
       \cup [op : {"observe"}, obs : {s.obs}, r : {s.r}, done : {s.done},
             reset : [1..N -> B]]
       \cup [op : {"hook"}, j : 1..2, t : (s.t - N)..s.t, same : B]
       \cup [op : {"eval"}, t : {s.t}, episodes : {s.eps}, best : {0, 1}]
       \cup [op : {"chk", "finish"}, t : (s.t - N)..(s.t + 1)]
       \cup (IF Crash /\ s.ph \notin {"start", "exc", "fin", "end"}
             THEN [op : {"raise"}, exc : {"X"}, where : {"hook", "act"}] ELSE {})
       \cup [op : {"except"}, t : (s.t - N)..s.t]
       \cup [op : {"close"}, src : {"env", "evalenv"} \ n.closed]
       \cup (IF s.ph \in {"fin", "exc"} THEN [op : {"end"}, exc : {"", "X"}] ELSE {})
Count(e) ==
  CASE e.op = "step" ->
         [n EXCEPT !.steps = @ + N, !.len = [i \in 1..N |-> @[i] + 1],
                   !.live = [i \in 1..N |-> @[i] /\ ~e.done[i] /\ ~e.nr[i]],
                   !.bad = @ \/ (\E i \in 1..N : ~n.live[i] \/ (c.maxlen > 0 /\ n.len[i] >= c.maxlen)),
                   !.ends = @ + Cardinality({i \in 1..N : e.done[i] \/ e.nr[i] \/ n.len[i] + 1 = c.maxlen})]
    [] e.op = "reset" ->
         [n EXCEPT !.live = [i \in 1..N |-> @[i] \/ i \in e.reset],
                   !.bad = @ \/ (\E i \in e.reset : n.live[i] /\ n.len[i] # c.maxlen),
                   !.len = [i \in 1..N |-> IF i \in e.reset THEN 0 ELSE @[i]]]
    [] e.op = "hook" -> [n EXCEPT !.hooks = @ + 1]
    [] e.op = "chk" -> [n EXCEPT !.chks = @ \cup {e.t}]
    [] e.op \in {"finish", "except"} -> [n EXCEPT !.finals = @ + 1]
    [] e.op = "close" -> [n EXCEPT !.closed = @ \cup {e.src}]
    [] OTHER -> n
Next == \E e \in Evs : /\ TBFails(c, s, e) = {}
                       /\ s' = TBPost(c, s, e) /\ n' = Count(e) /\ c' = c
NotStuck == s.ph # "end" => \E e \in Evs : TBFails(c, s, e) = {}
\* no env is ever stepped after its episode ended, nor reset in the middle
EpisodesKept == ~n.bad
StepsExact == (s.ph = "end" /\ s.exc = "") =>
   /\ s.t = c.off + n.steps /\ s.t < c.steps + N
   /\ ~s.succ => s.t >= c.steps
HooksExact == (s.ph = "end" /\ s.exc = "") =>
   n.hooks = c.hooks * n.steps
Finals == n.finals <= 1 /\ (s.ph = "end" => n.finals = 1)
Checkpoints == s.ph = "end" /\ s.exc = "" =>
   n.chks = {k \in (c.off + 1)..s.t : c.freq > 0 /\ k % c.freq = 0}
EpisodesCounted == s.ph = "end" /\ s.exc = "" => s.eps = n.ends
===============================================================================
