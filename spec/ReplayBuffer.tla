-------------------------- MODULE ReplayBuffer --------------------------
(* n-step replay buffer with FIFO capacity (chainerrl.replay_buffer.       *)
(* ReplayBuffer / PrioritizedReplayBuffer).  A stored item is a window: a  *)
(* sequence of transitions.  b = [mem, pend]: mem the stored windows,      *)
(* oldest first; pend[e] the last (at most n) transitions of the episode   *)
(* in progress of env e.                                                   *)
EXTENDS Util

Suffixes(p) == [k \in 1..Len(p) |-> SubSeq(p, k, Len(p))]

RBEmpty(E) == [mem |-> <<>>, pend |-> [e \in E |-> <<>>]]

RBAppend(b, cap, n, e, x, term) ==
  LET p0 == Append(b.pend[e], x)
      p  == IF Len(p0) > n THEN Tail(p0) ELSE p0
  IN IF term
     THEN [mem |-> Trim(b.mem \o Suffixes(p), cap),
           pend |-> [b.pend EXCEPT ![e] = <<>>]]
     ELSE [mem |-> IF Len(p) = n THEN Trim(Append(b.mem, p), cap) ELSE b.mem,
           pend |-> [b.pend EXCEPT ![e] = p]]

RBStop(b, cap, n, e) ==
  LET p    == b.pend[e]
      rest == IF Len(p) = n THEN Tail(p) ELSE p
  IN [mem |-> Trim(b.mem \o Suffixes(rest), cap),
      pend |-> [b.pend EXCEPT ![e] = <<>>]]
=========================================================================
