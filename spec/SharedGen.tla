---------------------------- MODULE SharedGen ----------------------------
(* Histories of sharing, synchronizing, copying, unsharing and writing by  *)
(* three holders in one process and, after a fork, in three processes.     *)
EXTENDS Util, TLC, Json
CONSTANTS MaxOps
VARIABLES b, ng, fk
Init == b = <<>> /\ ng = 0 /\ fk = FALSE
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
Ops == <<"extract", "share", "share", "sharest", "shareall", "sync", "sync", "sync", "syncst", "syncall",
         "syncall", "setpar", "setpar", "setpar", "setper", "setper", "setst", "update", "update", "update",
         "notshared", "deepcopy", "copyparams", "fork", "fork">>
Next == /\ Len(b) < MaxOps
        /\ \E o \in {One(1..25)}, x \in {One(-8..8)} :
             LET op == IF ng = 0 /\ o <= 18 THEN Ops[One(1..5)] ELSE Ops[o]
             IN \E op2 \in {IF op = "fork" /\ fk THEN "update" ELSE op} :
                  /\ b' = Append(b, [op |-> op2, p |-> IF fk THEN One(0..2) ELSE 0, h |-> One(1..3),
                                     h2 |-> One(1..3), k |-> One(1..8), x |-> x, how |-> One(1..3)])
                  /\ ng' = IF op2 \in {"extract", "share", "sharest", "shareall"} THEN ng + 1 ELSE ng
                  /\ fk' = (fk \/ op2 = "fork")
Emit == Len(b) = MaxOps => PrintT(<<"B", ToJson([b |-> b])>>)
==========================================================================
