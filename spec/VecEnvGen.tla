------------------------------- MODULE VecEnvGen -------------------------------
(* Call sequences for vector envs. *)
EXTENDS Util, TLC, Json
CONSTANT L
VARIABLES n, b
Init == n \in 1..4 /\ b = <<>>
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
Row(S) == [k \in 1..n |-> One(S)]
Call == LET x == One(1..10)
        IN IF b = <<>> THEN [op |-> "reset", v |-> [k \in 1..n |-> 0]]
           ELSE IF x <= 5 THEN [op |-> "step", v |-> Row(0..2)]
           ELSE IF x <= 8 THEN [op |-> "reset", v |-> Row(0..1)]
           ELSE IF x = 9 THEN [op |-> "resetall", v |-> Row({0})]
           ELSE [op |-> "seed", v |-> Row(0..99)]
Next == Len(b) < L /\ b' = Append(b, Call) /\ n' = n
Emit == Len(b) = L => PrintT(<<"B", ToJson([n |-> n, b |-> b])>>)
===============================================================================
