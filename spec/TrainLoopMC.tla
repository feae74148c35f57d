----------------------------- MODULE TrainLoopMC -----------------------------
(* All behaviours of the protocol, checked against what it is for.           *)
EXTENDS TrainLoop
CONSTANTS MaxSteps, Crash
VARIABLES c, s, n      \* n: counters kept independently of the protocol
Confs == [steps : 1..MaxSteps, off : {0, 1}, maxlen : {0, 1, 2},
          freq : {0, 1, 2}, hooks : {0, 2}, ev : BOOLEAN, succ : {-1, 1}]
N0 == [steps |-> 0, hooks |-> 0, resets |-> 0, ends |-> 0, dead |-> FALSE,
       chks |-> {}, finals |-> 0, len |-> 0, longest |-> 0]
Init == /\ c \in {x \in Confs : x.off < x.steps /\ (x.ev \/ x.succ = -1)}
        /\ s = TL0(c) /\ n = N0
B == {TRUE, FALSE}
Evs == [op : {"reset"}, obs : {s.obs + 1}]
       \cup [op : {"act"}, obs : {s.obs}, r : {s.r}, a : {s.a + 1}]
       \cup [op : {"step"}, a : {s.a}, obs : {s.obs + 1}, r : {1}, done : B, nr : B]
       \cup [op : {"hook"}, j : 1..2, t : {s.t, s.t + 1}, same : B]
       \cup [op : {"stop"}, obs : {s.obs}, r : {s.r}, done : B]
       \cup [op : {"eval"}, t : {s.t}, episodes : {s.eps}, best : {0, 1}]
       \cup [op : {"chk", "finish"}, t : {s.t, s.t + 1}]
       \cup (IF Crash /\ s.ph \notin {"start", "exc", "fin", "end"}
             THEN [op : {"raise"}, exc : {"X"}] ELSE {})
       \cup [op : {"except"}, t : {s.t, s.t + 1}]
       \cup (IF s.ph \in {"fin", "exc"} THEN [op : {"end"}, exc : {"", "X"}] ELSE {})
Count(e) ==
  CASE e.op = "step" ->
         [n EXCEPT !.steps = @ + 1, !.len = @ + 1, !.longest = Max2(@, n.len + 1),
                   !.dead = n.dead \/ s.done]
    [] e.op = "hook" -> [n EXCEPT !.hooks = @ + 1]
    [] e.op = "reset" -> [n EXCEPT !.resets = @ + 1, !.len = 0]
    [] e.op = "stop" -> [n EXCEPT !.ends = @ + 1]
    [] e.op = "chk" -> [n EXCEPT !.chks = @ \cup {e.t}]
    [] e.op \in {"finish", "except"} -> [n EXCEPT !.finals = @ + 1]
    [] OTHER -> n
Next == \E e \in Evs : /\ TLFails(c, s, e) = {}
                       /\ s' = TLPost(c, s, e) /\ n' = Count(e) /\ c' = c
Spec == Init /\ [][Next]_<<c, s, n>>
\* stuttering after the end keeps every state non-blocking
NotStuck == s.ph # "end" => \E e \in Evs : TLFails(c, s, e) = {}
StepsExact == /\ s.t = c.off + n.steps /\ s.t <= c.steps
              /\ (s.ph = "end" /\ s.exc = "" /\ ~s.succ) => s.t = c.steps
HooksExact == (s.ph = "end" /\ s.exc = "") => n.hooks = c.hooks * n.steps
NeverStepsDeadEnv == ~n.dead
LimitKept == c.maxlen > 0 => n.longest <= c.maxlen
OneFinal == n.finals <= 1 /\ (s.ph = "end" => n.finals = 1)
ResetsExact == s.ph = "end" /\ s.exc = "" => n.resets = n.ends
Checkpoints == s.ph = "end" /\ s.exc = "" =>
   n.chks = {k \in 1..MaxSteps : /\ c.freq > 0 /\ k > c.off /\ k < s.t
                                 /\ k % c.freq = 0}
==============================================================================
