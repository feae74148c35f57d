--------------------------- MODULE ExplorerGen ---------------------------
(* Configurations and histories of explorers.                              *)
EXTENDS Util, TLC, Json
CONSTANTS MaxT
VARIABLES b
Init == b = <<>>
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
Pct == One({0, 1, 5, 10, 25, 30, 50, 75, 99, 100})
Next ==
  /\ Len(b) < 1
  /\ \E st \in {One({0, 1, 2, 3, 7, 10, 25, 50})} :
        b' = <<[start |-> Pct, end |-> Pct, steps |-> st,
               ts |-> [k \in 1..6 |->
                  LET m == 1 + ((k + st) % 6)
                  IN CASE m = 1 -> st
                       [] m = 2 -> st + One(IF k > 0 THEN 1..3 ELSE {})
                       [] m = 3 -> IF st > 0 THEN st - 1 ELSE 0
                       [] m = 4 -> One(IF k > 0 THEN 0..(2 * st + 5) ELSE {})
                       [] OTHER -> One(IF k > 0 THEN 0..st ELSE {})],
               ks |-> [k \in 1..6 |-> [a \in 1..One(IF k > 0 THEN 1..5 ELSE {}) |->
                        One(IF a > 0 THEN 0..5 ELSE {})]]]>>
Emit == Len(b) = 1 => PrintT(<<"B", ToJson(b[1])>>)
==========================================================================
