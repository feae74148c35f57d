------------------------------- MODULE PrioMC -------------------------------
(* The implementation remembers positions and shifts them on eviction; the   *)
(* meaning is by item.                                                       *)
EXTENDS Prio
CONSTANTS Cap, MaxX, Ps, KMax
VARIABLES s, pos, pri, x, ever
vars == <<s, pos, pri, x, ever>>
\* pri: position -> priority (the tree); pos: sampled positions (1-based)
Init == s = PNew(1) /\ pos = <<>> /\ pri = <<>> /\ x = 0 /\ ever = {1}
Shift(ps, d) == [j \in 1..Len(ps) |-> ps[j] - d]
App(p) ==
  /\ x < MaxX /\ x' = x + 1
  /\ s' = PAppend(s, Cap, x + 1, p)
  /\ LET full == Len(pri) = Cap
         pv == IF p = 0 THEN s.maxp ELSE p
     IN /\ pri' = Append(IF full THEN Tail(pri) ELSE pri, pv)
        /\ pos' = IF full THEN Shift(pos, 1) ELSE pos
  /\ ever' = ever
Pop == /\ s.items # <<>> /\ s' = PPop(s) /\ pri' = Tail(pri)
       /\ pos' = Shift(pos, 1) /\ UNCHANGED <<x, ever>>
Sample == \E k \in 1..KMax : \E f \in [1..k -> 1..Len(pri)] :
       /\ ~s.wait /\ k <= Len(pri) /\ Distinct(f)
       /\ s' = PSample(s, [j \in 1..k |-> s.items[f[j]].id], TRUE)
       /\ pos' = f /\ UNCHANGED <<pri, x, ever>>
Update == \E ps \in [1..Len(pos) -> Ps] :
       /\ s.wait
       /\ s' = PUpdate(s, ps)
       /\ pri' = [k \in 1..Len(pri) |->
                    IF \E j \in 1..Len(pos) : pos[j] = k
                    THEN ps[CHOOSE j \in 1..Len(pos) : pos[j] = k]
                    ELSE pri[k]]
       /\ ever' = ever \cup {ps[j] : j \in {j \in 1..Len(pos) : pos[j] >= 1}}
       /\ pos' = <<>> /\ x' = x
Next == (\E p \in Ps \cup {0} : App(p)) \/ Pop \/ Sample \/ Update
Spec == Init /\ [][Next]_vars
Refines == pri = [k \in 1..Len(s.items) |-> s.items[k].p]
MaxIsLargestEverSet == s.maxp \in ever /\ \A p \in ever : p <= s.maxp
Positive == \A k \in 1..Len(pri) : pri[k] > 0
Bounded == Len(s.items) <= Cap /\ Distinct([k \in 1..Len(s.items) |-> s.items[k].id])
LastDistinct == Distinct(s.last)
=============================================================================
