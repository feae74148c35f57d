------------------------------- MODULE PrioGen -------------------------------
EXTENDS Util, TLC, Json
CONSTANTS D, Ks, Rs, Vs, W, Extra
VARIABLES h, len, wait
Init == h = <<>> /\ len = 0 /\ wait = FALSE
O(o) == h' = Append(h, o)
Next == /\ Len(h) < D
        /\ \/ \E p \in {0, 2, 5} : O([op |-> "append", p |-> p])
                /\ len' = len + 1 /\ wait' = wait
           \/ \E w \in 1..W : O([op |-> "append", p |-> 0])
                /\ len' = len + 1 /\ wait' = wait
           \/ "pop" \in Extra /\ len > 0 /\ O([op |-> "popleft"])
                /\ len' = len - 1 /\ wait' = wait
           \/ \E k \in Ks, r \in Rs, w \in 0..W :
                len > 0 /\ O([op |-> "sample", k |-> k, rn |-> r])
                /\ wait' = TRUE /\ len' = len
           \/ \E v \in Vs, w \in 0..W : (wait \/ v = 0)
                /\ O([op |-> "set", v |-> v])
                /\ wait' = FALSE /\ len' = len
           \/ "reload" \in Extra /\ O([op |-> "reload"])
                /\ UNCHANGED <<len, wait>>
Emit == Len(h) = D => PrintT(<<"B", ToJson(h)>>)
==============================================================================
