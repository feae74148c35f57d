-------------------------------- MODULE WrapGen --------------------------------
(* Scenarios for env wrappers: what the base env answers, what the user does *)
(* (resetting when told, and sometimes in between).                          *)
EXTENDS Util, TLC, Json
CONSTANTS NUser, NBase
VARIABLES u, b, ended
Init == u = <<>> /\ b = <<>> /\ ended \in {0, 1, 2}   \* how often episodes end
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
Bit(n) == One(1..10) <= n
Next == /\ UNCHANGED ended
        /\ \/ /\ Len(b) < NBase /\ u' = u
              /\ b' = Append(b, [r |-> One({-3, -1, 0, 0, 1, 2, 7}),
                                 done |-> Bit(1 + 2 * ended), nr |-> Bit(ended),
                                 lost |-> Bit(3), x |-> One(0..9), y |-> One(0..9)])
           \/ /\ Len(b) = NBase /\ Len(u) < NUser /\ b' = b
              /\ u' = Append(u, [reset |-> Bit(2), a |-> One(0..3)])
Emit == Len(u) = NUser => PrintT(<<"B", ToJson([u |-> u, b |-> b])>>)
===============================================================================
