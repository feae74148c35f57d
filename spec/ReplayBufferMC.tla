------------------------- MODULE ReplayBufferMC -------------------------
(* Design model: the operational buffer against the declarative meaning of *)
(* "every transition starts exactly one in-episode window" and "newest     *)
(* first, oldest evicted".                                                 *)
EXTENDS ReplayBuffer
CONSTANTS Envs, N, Cap, MaxT
VARIABLES b,      \* the buffer under study (capacity Cap)
          full,   \* the same history without capacity
          eps,    \* per env: finished episodes (sequence of sequences)
          cur,    \* per env: episode in progress
          t       \* transitions appended so far
vars == <<b, full, eps, cur, t>>

Init == /\ b = RBEmpty(Envs) /\ full = RBEmpty(Envs)
        /\ eps = [e \in Envs |-> <<>>] /\ cur = [e \in Envs |-> <<>>]
        /\ t = 0

App(e, term) ==
  /\ t < MaxT
  /\ t' = t + 1
  /\ b' = RBAppend(b, Cap, N, e, t + 1, term)
  /\ full' = RBAppend(full, -1, N, e, t + 1, term)
  /\ IF term
     THEN /\ eps' = [eps EXCEPT ![e] = Append(@, Append(cur[e], t + 1))]
          /\ cur' = [cur EXCEPT ![e] = <<>>]
     ELSE /\ cur' = [cur EXCEPT ![e] = Append(@, t + 1)]
          /\ eps' = eps
Stop(e) ==
  /\ t' = t
  /\ b' = RBStop(b, Cap, N, e)
  /\ full' = RBStop(full, -1, N, e)
  /\ eps' = IF cur[e] = <<>> THEN eps
            ELSE [eps EXCEPT ![e] = Append(@, cur[e])]
  /\ cur' = [cur EXCEPT ![e] = <<>>]
Next == \E e \in Envs : App(e, TRUE) \/ App(e, FALSE) \/ Stop(e)
Spec == Init /\ [][Next]_vars

\* the windows an episode must have contributed
Windows(ep, done) ==
  {SubSeq(ep, k, Min2(k + N - 1, Len(ep))) :
      k \in {k \in 1..Len(ep) : done \/ k + N - 1 <= Len(ep)}}
Expected == UNION {UNION {Windows(eps[e][j], TRUE) : j \in 1..Len(eps[e])}
                   \cup Windows(cur[e], FALSE) : e \in Envs}
WindowsExact == /\ Range(full.mem) = Expected
                /\ Cardinality(Expected) = Len(full.mem)
StartsUnique == \A p, q \in 1..Len(full.mem) :
                   full.mem[p][1] = full.mem[q][1] => p = q
CapacityFifo == /\ Cap >= 0 => Len(b.mem) <= Cap
                /\ b.mem = Trim(full.mem, Cap)
                /\ b.pend = full.pend
=========================================================================
