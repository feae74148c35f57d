-------------------------------- MODULE AleGen --------------------------------
(* What the emulator does at each frame, and which actions are chosen. *)
EXTENDS Util, TLC, Json
CONSTANTS NUser, NBase
VARIABLES u, b, often
Init == u = <<>> /\ b = <<>> /\ often \in {0, 1, 3}
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
Bit(n) == One(1..20) <= n
Next == /\ UNCHANGED often
        /\ \/ /\ Len(b) < NBase /\ u' = u
              /\ b' = Append(b, [r |-> One({-2, 0, 0, 1, 3, 10}), over |-> Bit(often),
                                 life |-> IF Bit(often) THEN -1 ELSE IF Bit(1) THEN 1 ELSE 0,
                                 scr |-> [k \in 1..4 |-> One(1..25)]])
           \/ /\ Len(b) = NBase /\ Len(u) < NUser /\ b' = b
              /\ u' = Append(u, [reset |-> Bit(2), a |-> One(0..3)])
Emit == Len(u) = NUser => PrintT(<<"B", ToJson([u |-> u, b |-> b])>>)
===============================================================================
