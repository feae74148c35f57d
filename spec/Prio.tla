-------------------------------- MODULE Prio --------------------------------
(* Prioritized buffer.  items: stored items [id, p], oldest first; maxp: the *)
(* priority given to new items; wait: TRUE between a sample and its update   *)
(* (when the buffer is configured to wait); last: ids of the last sample, in *)
(* sampled order.  Sampling does not change the priorities.                  *)
EXTENDS Util
PNew(m0) == [items |-> <<>>, maxp |-> m0, wait |-> FALSE, last |-> <<>>]
Ids(s) == {s.items[k].id : k \in 1..Len(s.items)}
PriOf(s, x) == s.items[CHOOSE k \in 1..Len(s.items) : s.items[k].id = x].p
Total(s) == Sum([k \in 1..Len(s.items) |-> s.items[k].p])
MinP(s) == CHOOSE p \in {s.items[k].p : k \in 1..Len(s.items)} :
             \A k \in 1..Len(s.items) : p <= s.items[k].p
\* p = 0: the current maximum
PAppend(s, cap, x, p) ==
  [s EXCEPT !.items = Trim(Append(@, [id |-> x,
                           p |-> IF p = 0 THEN s.maxp ELSE p]), cap)]
PPop(s) == [s EXCEPT !.items = Tail(@)]
PSample(s, ids, waits) == [s EXCEPT !.last = ids, !.wait = waits]
\* the j-th priority goes to the j-th sampled item, if it is still stored
NewP(s, it, ps) ==
  IF \E j \in 1..Len(ps) : s.last[j] = it.id
  THEN ps[CHOOSE j \in 1..Len(ps) : s.last[j] = it.id] ELSE it.p
RECURSIVE MaxOver(_, _, _, _)
MaxOver(s, ps, j, m) ==
  IF j > Len(ps) THEN m
  ELSE MaxOver(s, ps, j + 1,
               IF s.last[j] \in Ids(s) THEN Max2(m, ps[j]) ELSE m)
PUpdate(s, ps) ==
  [items |-> [k \in 1..Len(s.items) |->
                [s.items[k] EXCEPT !.p = NewP(s, s.items[k], ps)]],
   maxp |-> MaxOver(s, ps, 1, s.maxp),
   wait |-> FALSE, last |-> <<>>]
\* sampling weight of item priority p when a fraction rn/4 of the draws is
\* uniform; the probability is MixQ / (4 * number of items * total)
MixQ(s, rn, p) == rn * Total(s) + (4 - rn) * p * Len(s.items)
=============================================================================
