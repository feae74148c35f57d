--------------------------- MODULE SameRunGen ---------------------------
(* Plans: seeds of the runs of a program, what the process drew before,    *)
(* how long the run is.                                                    *)
EXTENDS Util, TLC, Json
CONSTANTS Runs
VARIABLES b, len
vars == <<b, len>>
Init == b = <<>> /\ len = 0
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
Next ==
  /\ Len(b) < Runs
  /\ \E sd \in {IF Len(b) < 2 THEN 1 ELSE One(1..2)} : \E n \in {One(0..50)} : \E z \in {One(0..999)} :
       b' = Append(b, [seed |-> sd, noise |-> n, junk |-> z])
  /\ len' = IF b = <<>> THEN One({18, 30, 45}) ELSE len
Emit == Len(b) = Runs => PrintT(<<"B", ToJson([b |-> b, len |-> len])>>)
=========================================================================
