------------------------------ MODULE EvalRunMC ------------------------------
(* All behaviours of the protocol, checked against what it is for.           *)
EXTENDS EvalRun
CONSTANTS MaxN
VARIABLES c, s, n
B == {TRUE, FALSE}
Init == /\ c \in [steps : 0..MaxN, eps : 0..MaxN, maxlen : {0, 1, 2},
                  kind : {"eval", "demo"}]
        /\ (c.steps = 0) # (c.eps = 0)
        /\ s = ER0(c)
        /\ n = [resets |-> 0, steps |-> 0, full |-> 0, rets |-> <<0>>, stops |-> 0,
                live |-> FALSE, bad |-> FALSE]
Evs == [op : {"reset"}, obs : {1}] \cup [op : {"eact"}, obs : {s.obs}, a : {1}]
       \cup [op : {"step"}, a : {s.a}, obs : {2}, r : {1, 3}, done : B, nr : B]
       \cup [op : {"estop"}]
       \cup [op : {"end"}, scores : {s.scores, <<s.ret>>, <<>>}, stats : {<<>>},
             recs : {s.recs, <<>>}]
Count(e) ==
  CASE e.op = "reset" -> [n EXCEPT !.resets = @ + 1, !.bad = @ \/ n.live, !.live = TRUE]
    [] e.op = "step" ->
         [n EXCEPT !.steps = @ + 1, !.bad = @ \/ ~n.live,
                   !.live = ~(e.done \/ e.nr \/ s.len + 1 = c.maxlen),
                   !.full = IF e.done \/ e.nr \/ s.len + 1 = c.maxlen THEN @ + 1 ELSE @]
    [] e.op = "estop" -> [n EXCEPT !.stops = @ + 1]
    [] OTHER -> n
Next == \E e \in Evs : /\ ERFails(c, s, e) = {}
                       /\ s' = ERPost(c, s, e) /\ n' = Count(e) /\ c' = c
\* runs of unbounded length are cut off
Short == n.steps <= 6
NotStuck == s.ph # "end" => \E e \in Evs : ERFails(c, s, e) = {}
Exact == s.ph = "end" => IF c.eps > 0 THEN n.full = c.eps /\ ~n.live
                         ELSE n.steps = c.steps
Episodes == ~n.bad /\ (s.ph = "end" => n.stops = n.resets)
Records == c.kind = "demo" => Len(s.recs) = n.steps
Scores == Len(s.scores) = n.full
===============================================================================
