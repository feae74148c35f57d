------------------------------- MODULE OffPolicyGen -------------------------------
(* Interleavings of training and evaluation calls: single-env histories and batch  *)
(* histories (done and reset patterns of up to 3 envs, evaluations in between).    *)
(* MidStop: whether stop_episode may be called within a training episode.          *)
EXTENDS Util, TLC, Json
CONSTANTS MaxOps, Mode, MidStop, NS
VARIABLES b, ep
Init == b = <<>> /\ ep = 0
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
Bit(n) == One(1..20) <= n
S1 == One(0..(NS - 1))
R1 == One(-3..3)
Single ==
  \/ /\ b' = Append(b, [op |-> "step", s |-> S1, r |-> R1, done |-> FALSE])
     /\ ep' = ep + 1
  \/ /\ b' = Append(b, [op |-> "step", s |-> S1, r |-> R1, done |-> FALSE])
     /\ ep' = ep + 1
  \/ /\ ep > 0
     /\ b' = Append(b, [op |-> "end", s |-> S1, r |-> R1, done |-> Bit(12)])
     /\ ep' = 0
  \/ /\ Bit(8)
     /\ b' = Append(b, [op |-> "eval", s |-> S1, r |-> 0, done |-> FALSE])
     /\ ep' = ep
  \/ /\ Bit(8) /\ (ep = 0 \/ MidStop)
     /\ b' = Append(b, [op |-> "evalstop", s |-> 0, r |-> 0, done |-> FALSE])
     /\ ep' = ep
Batch ==
  /\ ep' = ep
  /\ b' = Append(b, [s |-> [j \in 1..3 |-> One(IF j > 0 THEN 0..(NS - 1) ELSE {})],
                     s2 |-> [j \in 1..3 |-> One(IF j > 0 THEN 0..(NS - 1) ELSE {})],
                     r |-> [j \in 1..3 |-> One(IF j > 0 THEN -3..3 ELSE {})],
                     done |-> [j \in 1..3 |-> One(IF j > 0 THEN 1..20 ELSE {}) <= 4],
                     reset |-> [j \in 1..3 |-> One(IF j > 0 THEN 1..20 ELSE {}) <= 4],
                     eval |-> IF Bit(4) THEN <<S1>> ELSE IF Bit(2) THEN <<S1, S1>> ELSE <<>>])
Next == Len(b) < MaxOps /\ IF Mode = "single" THEN Single ELSE Batch
Emit == Len(b) = MaxOps => PrintT(<<"B", ToJson([b |-> b])>>)
===================================================================================
