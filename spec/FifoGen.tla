------------------------------ MODULE FifoGen ------------------------------
EXTENDS Fifo, TLC, Json
CONSTANTS D, Cap, Long
VARIABLES h, q, x
Idx == IF Long THEN {-9, -4, -2, -1, 0, 1, 3, 6, 9} ELSE {-2, -1, 0, 1}
Init == /\ \E k \in (IF Long THEN {0, 3, 9} ELSE {0, 2}) :
              h = <<[op |-> "new", k |-> k]>> /\ x = k
              /\ q = FNew(Cap, [j \in 1..k |-> j])
Step(o, q1, k) == h' = Append(h, o) /\ q' = q1 /\ x' = x + k
Next == /\ Len(h) < D
        /\ \/ Step([op |-> "append"], FExtend(q, Cap, <<x + 1>>), 1)
           \/ \E k \in (IF Long THEN {0, 1, 2, 5} ELSE {0, 2}) :
                Step([op |-> "extend", k |-> k],
                     FExtend(q, Cap, [j \in 1..k |-> x + j]), k)
           \/ Step([op |-> "popleft"], IF q = <<>> THEN q ELSE Tail(q), 0)
           \/ \E i \in Idx : Step([op |-> "get", i |-> i], q, 0)
           \/ \E i \in Idx : Step([op |-> "set", i |-> i],
                IF Valid(q, i) THEN FSet(q, i, x + 1) ELSE q, 1)
           \/ Long /\ \E k \in 0..3 : Step([op |-> "sample", k |-> k], q, 0)
Emit == Len(h) = D => PrintT(<<"B", ToJson(h)>>)
=============================================================================
