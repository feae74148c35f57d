----------------------------------- MODULE ActingMC ---------------------------------
(* A greedy agent with an explorer over Envs envs and a schedule of exploration: the   *)
(* design.  Exploration stops at step Stop; evaluations may come at any moment.        *)
(* BUG: "evalexplores" evaluation asks the explorer; "evalcounts" evaluation advances  *)
(* the clock; "late" every env is offered the greedy action of the last one.           *)
EXTENDS Acting
CONSTANTS Envs, MaxT, Stop, BUG
VARIABLES q, t, last
Cfg == [mode |-> "greedy", n |-> 2, roll |-> FALSE, rows |-> q]
Init == q \in [1..2 -> [1..2 -> 0..1]] /\ t = 0 /\ last = <<"none", <<>>, <<>>, <<>>, 0>>
Explore(g) == IF t < Stop THEN {<<0>>, <<1>>} ELSE {g}
G(o) == {<<a>> : a \in Best(Cfg, o)}
Train == /\ t < MaxT
         /\ \E obs \in [1..Envs -> 1..2] :
            \E g \in [1..Envs -> {<<0>>, <<1>>}] :
              /\ \A k \in 1..Envs : g[k] \in G(IF BUG = "late" THEN obs[Envs] ELSE obs[k])
              /\ \E a \in [1..Envs -> {<<0>>, <<1>>}] :
                   /\ \A k \in 1..Envs : a[k] \in Explore(g[k])
                   /\ last' = <<"train", obs, g, a, t>>
                   /\ t' = t + Envs
         /\ UNCHANGED q
Eval == /\ \E o \in 1..2 : \E a \in {<<0>>, <<1>>} :
             /\ IF BUG = "evalexplores" THEN a \in UNION {Explore(g) : g \in G(o)} ELSE a \in G(o)
             /\ last' = <<"eval", <<o>>, <<>>, <<a>>, t>>
        /\ t' = IF BUG = "evalcounts" THEN t + 1 ELSE t
        /\ t <= MaxT
        /\ UNCHANGED q
Next == Train \/ Eval
EvalGreedy == last[1] = "eval" => IsBest(Cfg, last[2][1], last[4][1])
Offered == last[1] = "train" => \A k \in 1..Envs : IsBest(Cfg, last[2][k], last[3][k])
Exploits == (last[1] = "train" /\ last[5] >= Stop) =>
              \A k \in 1..Envs : IsBest(Cfg, last[2][k], last[4][k])
Clock == t % Envs = 0
=====================================================================================
