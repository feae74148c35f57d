-------------------------- MODULE LifecycleGen ---------------------------
(* Lives of an agent: training episodes (or batch steps), evaluation        *)
(* between them (Mid: anywhere), saves anywhere, and at the end loading     *)
(* into a fresh agent, which goes on training and acting.                   *)
EXTENDS Util, TLC, Json
CONSTANTS MaxOps, Batch, Mid, WithSaves
VARIABLES b, inep, ev, saved, loaded, tail, inep2
vars == <<b, inep, ev, saved, loaded, tail, inep2>>
Init == /\ b = <<>> /\ inep = FALSE /\ ev = 0 /\ saved = {} /\ loaded = FALSE /\ tail = 0 /\ inep2 = FALSE
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
Vec(lo, hi) == [k \in 1..3 |-> One(lo..(hi + (0 * k)))]
Bools(p) == [k \in 1..3 |-> One(1..(100 + (0 * k))) <= p]
Op(name) == [op |-> name, o |-> Vec(0, 15), r |-> Vec(-2, 2), done |-> Bools(15), reset |-> Bools(12), d |-> One(1..3)]
TrainOps == IF Batch THEN {"T"} ELSE IF inep THEN {"t", "t2", "t3", "t4", "d", "u"} ELSE {"t"}
Name(x) == IF x \in {"t", "t2", "t3", "t4"} THEN "t" ELSE x
EvalOps == IF Batch THEN {"E"} ELSE {"e", "e2", "s"}
Main ==
  \E x \in {One(1..100)} :
    \E op \in {IF (~inep \/ Mid \/ Batch) /\ x <= 30 THEN One(EvalOps)
               ELSE IF ev = 1 /\ ~Mid /\ ~Batch THEN "s"      \* an evaluation ends before training goes on
               ELSE IF WithSaves /\ x \in 31..42 THEN "S"
               ELSE IF WithSaves /\ saved # {} /\ x = 43 THEN "R"
               ELSE One(TrainOps)} :
      \E q \in {Op(Name(IF op = "e2" THEN "e" ELSE op))} :
        /\ b' = Append(b, IF op = "R" THEN [q EXCEPT !.d = One(saved)] ELSE q)
        /\ inep' = IF Name(op) = "t" THEN TRUE ELSE IF op \in {"d", "u"} THEN FALSE ELSE inep
        /\ ev' = IF op \in {"e", "e2"} THEN 1 ELSE IF op = "s" THEN 0 ELSE ev
        /\ saved' = IF op = "S" THEN saved \cup {q.d} ELSE saved
        /\ UNCHANGED <<loaded, tail, inep2>>
LoadIt ==
  \E q \in {Op("L")} :
    /\ b' = Append(b, [q EXCEPT !.d = One(saved)])
    /\ loaded' = TRUE /\ tail' = MaxOps \div 3
    /\ UNCHANGED <<inep, ev, saved, inep2>>
TailOp ==
  \E op \in {IF Batch THEN One({"PT", "PT2", "PE"})
             ELSE IF inep2 THEN One({"pt", "pt2", "pt3", "pd", "pu"})
             ELSE One({"pt", "pt2", "pe"})} :
    \E nm \in {IF op \in {"pt2", "pt3"} THEN "pt" ELSE IF op = "PT2" THEN "PT" ELSE op} :
    \E q \in {Op(nm)} :
      /\ b' = Append(b, q)
      /\ inep2' = IF nm = "pt" THEN TRUE ELSE IF nm \in {"pd", "pu"} THEN FALSE ELSE inep2
      /\ tail' = tail - 1
      /\ UNCHANGED <<inep, ev, saved, loaded>>
Next == IF loaded THEN tail > 0 /\ TailOp
        ELSE IF Len(b) < MaxOps THEN Main
        ELSE WithSaves /\ saved # {} /\ LoadIt
End == IF WithSaves /\ saved # {} THEN loaded /\ tail = 0 ELSE Len(b) = MaxOps
Emit == End => PrintT(<<"B", ToJson([b |-> b])>>)
==========================================================================
