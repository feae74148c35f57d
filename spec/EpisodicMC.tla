----------------------------- MODULE EpisodicMC -----------------------------
(* The representation keeps a flat transition queue next to the episode     *)
(* queue and pops as many transitions as the discarded episode had.         *)
EXTENDS Episodic
CONSTANTS Envs, Cap, MaxT
VARIABLES b, flat, all, t
vars == <<b, flat, all, t>>
Init == b = EPEmpty(Envs) /\ flat = <<>> /\ all = <<>> /\ t = 0
RECURSIVE Drop(_, _, _)
Drop(fl, eps, cap) == IF cap >= 0 /\ Len(fl) > cap
  THEN Drop(SubSeq(fl, Len(eps[1]) + 1, Len(fl)), Tail(eps), cap) ELSE fl
End(c, e) == /\ flat' = Drop(flat \o c, Append(b.eps, c), Cap)
             /\ all' = Append(all, c)
App(e, term) == /\ t < MaxT /\ t' = t + 1
                /\ b' = EPAppend(b, Cap, e, t + 1, term)
                /\ IF term THEN End(Append(b.cur[e], t + 1), e)
                   ELSE UNCHANGED <<flat, all>>
Stop(e) == /\ t' = t /\ b' = EPStop(b, Cap, e)
           /\ IF b.cur[e] = <<>> THEN UNCHANGED <<flat, all>>
              ELSE End(b.cur[e], e)
Next == \E e \in Envs : App(e, TRUE) \/ App(e, FALSE) \/ Stop(e)
Spec == Init /\ [][Next]_vars
ViewsAgree == flat = Flat(b.eps)
Capacity == Cap >= 0 => Len(flat) <= Cap
NewestEpisodes == IsSuffix(b.eps, all)
\* an episode is gone only if keeping it would have exceeded the capacity at
\* some point at which it was the oldest one
NeverEvictsNeedlessly == Cap < 0 => b.eps = all
Increasing == \A k \in 1..Len(b.eps) :
                \A j \in 1..(Len(b.eps[k]) - 1) : b.eps[k][j] < b.eps[k][j + 1]
InvisibleInProgress == \A e \in Envs : Range(b.cur[e]) \cap Range(flat) = {}
=============================================================================
