-------------------------------- MODULE EvalGen --------------------------------
(* Scenarios for evaluations and demonstrations.                             *)
EXTENDS Util, TLC, Json
CONSTANTS Steps, Eps, MaxLens, NEnvs, Need, W
VARIABLES c, h
Init == /\ c \in [steps : Steps \cup {0}, eps : Eps \cup {0}, maxlen : MaxLens, n : NEnvs]
        /\ (c.steps = 0) # (c.eps = 0)
        /\ h = <<>>
Ans == [done : BOOLEAN, nr : BOOLEAN]
Next == /\ Len(h) < Need /\ c' = c
        /\ \/ \E x \in Ans : h' = Append(h, x)
           \/ \E w \in 1..W : h' = Append(h, [done |-> FALSE, nr |-> FALSE])
Emit == Len(h) = Need => PrintT(<<"B", ToJson([c |-> c, script |-> h])>>)
===============================================================================
