------------------------------- MODULE TrainGen -------------------------------
(* Scenarios for the training loops: a configuration, what the env answers   *)
(* at each step, what evaluations return and what fails where.               *)
EXTENDS Util, TLC, Json
CONSTANTS Steps, Offs, MaxLens, Freqs, Hooks, Succs, Crash, NEnvs, W
VARIABLES c, h
Init == /\ c \in [steps : Steps, off : Offs, maxlen : MaxLens, freq : Freqs,
                  hooks : Hooks, succ : Succs, ev : {0, 1}, n : NEnvs,
                  crash : Crash, k : 1..(IF Crash = {"none"} THEN 1 ELSE 5),
                  best : {0, 1, 2}]
        /\ c.off < c.steps /\ (c.ev = 0 => c.succ = -1 /\ c.best = 0)
        /\ h = <<>>
\* number of env answers the run can need
Need == (c.steps - c.off + c.n - 1)
Ans == [done : BOOLEAN, nr : BOOLEAN]
Next == /\ Len(h) < Need /\ c' = c
        /\ \/ \E x \in Ans : h' = Append(h, x)
           \/ \E w \in 1..W : h' = Append(h, [done |-> FALSE, nr |-> FALSE])
Emit == Len(h) = Need => PrintT(<<"B", ToJson([c |-> c, script |-> h])>>)
NoScore == {-1}
NoOrOne == {-1, 1}
SuccAll == {-1, 0, 1, 2}
===============================================================================
