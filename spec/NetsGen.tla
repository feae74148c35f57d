----------------------------------- MODULE NetsGen ----------------------------------
(* Random sizes, parameters (in quarters) and sequences of operations.                *)
EXTENDS Util, TLC, Json
CONSTANTS Len0
VARIABLES b
Init == b = <<>>
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
D(k, S) == One(IF k >= 0 THEN S ELSE {})
Next ==
  /\ Len(b) < 1
  /\ b' = <<[ni |-> One(1..3), na |-> One(1..3), no |-> One(1..4), w |-> One(1..3), h |-> One(0..3),
             B |-> One(1..4), nz |-> One(2..4), tanh |-> One(BOOLEAN), nin |-> One(BOOLEAN),
             nout |-> One(BOOLEAN), sc |-> One(BOOLEAN), asvar |-> One(BOOLEAN),
             lo |-> [k \in 1..3 |-> D(k, -8..0)], hi |-> [k \in 1..3 |-> D(k, 1..8)],
             vmin |-> One(-8..0), vmax |-> One(1..8), om |-> One({-8, -4, 1, 4, 8, 20}),
             scale |-> One({1, 2, 3, 4, 8}),
             bound |-> One({"both", "none", "lo", "hi"}), axis |-> One(0..1),
             pool |-> [k \in 1..60 |-> D(k, {-6, -5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6})],
             xs |-> [k \in 1..60 |-> D(k, -8..8)],
             ops |-> [j \in 1..Len0 |->
                       [op |-> D(j, {"look", "look", "train", "set", "noisy"}), B |-> D(j, 1..4),
                        at |-> D(j, 0..50), p |-> D(j, 0..50)]]]>>
Emit == Len(b) = 1 => PrintT(<<"B", ToJson(b[1])>>)
=====================================================================================
