---------------------------------- MODULE OptimGen ----------------------------------
(* Random optimizers and sequences of copies, gradients, updates and schedules;        *)
(* random positive definite systems.  Reals in quarters.                               *)
EXTENDS Util, TLC, Json
CONSTANTS Len0
VARIABLES b
Init == b = <<>>
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
D(k, S) == One(IF k >= 0 THEN S ELSE {})
Next ==
  /\ Len(b) < 1
  /\ b' = <<[opt |-> [j \in 1..2 |-> [kind |-> D(j, {"rms", "sgd"}), alpha |-> D(j, {0, 500, 900, 990}),
                                      eps |-> D(j, {0, 1, 16}), decay |-> D(j, 0..4), lr |-> D(j, {0, 1, 2, 4, 8})]],
             shape |-> One(0..31),
             pool |-> [k \in 1..60 |-> D(k, -8..8)],
             total |-> One(2..60), from |-> One(-8..8), to |-> One(-8..8),
             n |-> One(1..3), B |-> One(1..3), iters |-> One({0, 1, 1, 3, 10, 10}), tol |-> One({0, 0, 1, 4}),
             zero |-> One(1..5) = 1,
             ops |-> [j \in 1..Len0 |->
                       [op |-> D(j, {"grad", "grad", "grad", "update", "update", "update", "update", "copy", "soft", "cgrad",
                                     "hook", "clear"}),
                        h |-> D(j, 1..2), tau |-> D(j, 0..8), at |-> D(j, 0..50), none |-> D(j, 0..127), via |-> D(j, BOOLEAN),
                        step |-> D(j, 0..65)]]]>>
Emit == Len(b) = 1 => PrintT(<<"B", ToJson(b[1])>>)
=====================================================================================
