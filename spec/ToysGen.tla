----------------------------------- MODULE ToysGen ----------------------------------
(* Random stacks of env modifiers, scripts, calls; random settings and actions of the *)
(* toy env.  Rewards in quarters.                                                      *)
EXTENDS Util, TLC, Json
CONSTANTS Len0
VARIABLES b
Init == b = <<>>
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
D(k, S) == One(IF k >= 0 THEN S ELSE {})
Next ==
  /\ Len(b) < 1
  /\ b' = <<[size |-> One(1..4), po |-> One(BOOLEAN), det |-> One(BOOLEAN), episodic |-> One(BOOLEAN),
             discrete |-> One(BOOLEAN), good |-> One(0..9),
             av |-> [k \in 1..40 |-> D(k, -6..6)],
             mods |-> [j \in 1..4 |->
                        [t |-> D(j, {"limit", "repeat", "rendered", "clip", "reward", "action", "avg", "norm"}),
                         k |-> D(j, 1..4), lo |-> D(j, -6..-1), hi |-> D(j, 0..6), tau |-> D(j, {1, 50, 200, 500, 1000}),
                         eps |-> D(j, {1, 10, 64}), scale |-> D(j, 1..2)]],
             nm |-> One(1..4),
             script |-> [k \in 1..17 |-> [r |-> D(k, -8..8), done |-> D(k, 1..5) = 1]],
             ops |-> [j \in 1..Len0 |-> [op |-> D(j, {"step", "step", "step", "step", "step", "step", "reset", "close"}),
                                         a |-> D(j, 0..9), g |-> D(j, 0..9)]]]>>
Emit == Len(b) = 1 => PrintT(<<"B", ToJson(b[1])>>)
=====================================================================================
