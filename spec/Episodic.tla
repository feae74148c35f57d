------------------------------ MODULE Episodic ------------------------------
(* Episodic replay buffer: eps, the stored episodes, oldest first; cur[e]   *)
(* the transitions of the episode in progress of env e (invisible).         *)
EXTENDS Util
EPEmpty(E) == [eps |-> <<>>, cur |-> [e \in E |-> <<>>]]
EPLen(b) == Len(Flat(b.eps))
RECURSIVE Evict(_, _)
Evict(eps, cap) == IF cap >= 0 /\ Len(Flat(eps)) > cap
                   THEN Evict(Tail(eps), cap) ELSE eps
EPStop(b, cap, e) ==
  IF b.cur[e] = <<>> THEN b
  ELSE [eps |-> Evict(Append(b.eps, b.cur[e]), cap),
        cur |-> [b.cur EXCEPT ![e] = <<>>]]
EPAppend(b, cap, e, x, term) ==
  LET b1 == [b EXCEPT !.cur[e] = Append(@, x)]
  IN IF term THEN EPStop(b1, cap, e) ELSE b1
IsSub(s, ep) == \E a \in 0..(Len(ep) - Len(s)) :
                   s = SubSeq(ep, a + 1, a + Len(s))
=============================================================================
