------------------------------- MODULE AsyncLearnGen -------------------------------
(* Interleavings of the training calls of two workers, with evaluation calls.        *)
EXTENDS Util, TLC, Json
CONSTANTS MaxOps, NS
VARIABLES b, ep
Init == b = <<>> /\ ep = [w \in 1..2 |-> 0]
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
Bit(n) == One(1..20) <= n
Rec(op, w) == [op |-> op, w |-> w, s |-> One(0..(NS - 1)), r |-> One(-3..3), done |-> Bit(12)]
Do(w) ==
  \/ \E n \in 1..3 : b' = Append(b, Rec("step", w)) /\ ep' = [ep EXCEPT ![w] = @ + 1]
  \/ ep[w] > 0 /\ b' = Append(b, Rec("end", w)) /\ ep' = [ep EXCEPT ![w] = 0]
  \/ Bit(8) /\ b' = Append(b, Rec("eval", w)) /\ ep' = ep
  \/ Bit(6) /\ b' = Append(b, Rec("evalstop", w)) /\ ep' = ep
Next == Len(b) < MaxOps /\ \E w \in {One(1..2)} : Do(w)
Emit == Len(b) = MaxOps => PrintT(<<"B", ToJson([b |-> b])>>)
===================================================================================
