---------------------------------- MODULE ActingGen ---------------------------------
(* Random model outputs and sequences of calls.                                       *)
EXTENDS Util, TLC, Json
CONSTANTS Len0
VARIABLES b
Init == b = <<>>
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
D(k, S) == One(IF k >= 0 THEN S ELSE {})
Ops == {"act", "act", "train", "train", "train", "many", "stop"}
Next ==
  /\ Len(b) < 1
  /\ \E n \in {One(2..4)}, no \in {One(2..4)} :
     b' = <<[n |-> n, no |-> no, roll |-> One(BOOLEAN), det |-> One(BOOLEAN),
             t0 |-> One({0, 3, 100}), burnin |-> One(BOOLEAN), nenv |-> One(1..3),
             rows |-> [o \in 1..no |-> [a \in 1..n |-> D(a + o, -6..6)]],
             v |-> [a \in 1..n |-> D(a, {2048, 8192, 16384})],
             beta2 |-> One({1, 2, 4}),
             slopes |-> [o \in 1..no |-> [a \in 1..n |-> D(a + o, -1..1)]],
             ops |-> [j \in 1..Len0 |->
                       [op |-> D(j, Ops), obs |-> [k \in 1..3 |-> D(j + k, 1..no)],
                        train |-> D(j, BOOLEAN), nb |-> D(j, 1..3), shift |-> D(j, 0..3),
                        done |-> [k \in 1..3 |-> D(j + k, {TRUE, FALSE, FALSE})],
                        reset |-> [k \in 1..3 |-> D(j + k, {TRUE, FALSE, FALSE, FALSE})],
                        r |-> D(j, -3..3), thr |-> [a \in 1..n |-> D(a + j, -6..6)]]]]>>
Emit == Len(b) = 1 => PrintT(<<"B", ToJson(b[1])>>)
=====================================================================================
