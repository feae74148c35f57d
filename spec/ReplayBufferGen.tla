------------------------ MODULE ReplayBufferGen ------------------------
(* Behaviours of the model used as test scenarios for the real buffers.   *)
EXTENDS ReplayBuffer, TLC, Json
CONSTANTS NEnvs, D, Extra, W
VARIABLE h
App == {[op |-> "append", env |-> e, term |-> b] :
           e \in 1..NEnvs, b \in BOOLEAN}
Stp == {[op |-> "stop", env |-> e] : e \in 1..NEnvs}
Ops == App \cup Stp
       \cup (IF "reload" \in Extra THEN {[op |-> "reload"]} ELSE {})
       \cup (IF "save" \in Extra THEN {[op |-> "save"]} ELSE {})
       \cup (IF "sample" \in Extra
             THEN {[op |-> "sample", k |-> k] : k \in 1..2} ELSE {})
       \cup (IF "sub" \in Extra
             THEN {[op |-> "sub", k |-> k, maxlen |-> m] :
                      k \in 1..2, m \in 1..3} ELSE {})
Init == h = <<>>
\* W: extra weight of plain appends in simulated behaviours
Next == /\ Len(h) < D
        /\ \/ \E o \in Ops : h' = Append(h, o)
           \/ \E w \in 1..W, e \in 1..NEnvs :
                h' = Append(h, [op |-> "append", env |-> e, term |-> FALSE])
Emit == Len(h) = D => PrintT(<<"B", ToJson(h)>>)
=========================================================================
