------------------------------- MODULE AsyncWorkersMC -------------------------------
(* Design model of asynchronous learners below the granularity of a call: workers    *)
(* act, learn from their segment with a local model, apply the gradient to the       *)
(* shared parameters and fetch them, in every interleaving.  Bug selects a broken    *)
(* variant, which must violate an invariant.                                         *)
EXTENDS Util
CONSTANTS Workers, TMax, ITarget, MaxT, Bug
VARIABLES applied,  \* updates in the shared parameters: sequence of [w, seg, seen]
          loc,      \* per worker: number of updates its local model contains (a prefix), plus own
          pc, seg, n, ep, tg, cap, syncs, seen
vars == <<applied, loc, pc, seg, n, ep, tg, cap, syncs, seen>>
Init == /\ applied = <<>> /\ loc = [w \in Workers |-> {}]
        /\ pc = [w \in Workers |-> "idle"] /\ seg = [w \in Workers |-> <<>>]
        /\ n = [w \in Workers |-> 0] /\ ep = [w \in Workers |-> 1]
        /\ tg = 0 /\ cap = [w \in Workers |-> 0] /\ syncs = {} /\ seen = [w \in Workers |-> {}]
Upd(w) == [w |-> w, seg |-> seg[w], on |-> loc[w]]
Ids == 1..Len(applied)
\* one environment step: act with the local model, count the step
Act(w) == /\ pc[w] = "idle" /\ Len(seg[w]) < TMax /\ tg < MaxT
          /\ n' = [n EXCEPT ![w] = @ + 1]
          /\ seg' = [seg EXCEPT ![w] = Append(@, <<ep[w], n[w] + 1, loc[w]>>)]
          /\ tg' = tg + 1
          /\ cap' = [cap EXCEPT ![w] = tg + 1]
          /\ pc' = [pc EXCEPT ![w] = "acted"]
          /\ UNCHANGED <<applied, loc, ep, syncs, seen>>
\* the target network follows when the counted step is a multiple of ITarget
Target(w) == /\ pc[w] = "acted"
             /\ LET t == IF Bug = "reread" THEN tg ELSE cap[w]
                IN syncs' = IF t % ITarget = 0 THEN syncs \cup {<<w, n[w], t>>} ELSE syncs
             /\ pc' = [pc EXCEPT ![w] = "idle"]
             /\ UNCHANGED <<applied, loc, seg, n, ep, tg, cap, seen>>
Learn(w, end) ==
  /\ pc[w] = "idle" /\ seg[w] # <<>>
  /\ end \/ Len(seg[w]) = TMax
  /\ applied' = Append(applied, Upd(w))
  /\ ep' = [ep EXCEPT ![w] = IF end THEN @ + 1 ELSE @]
  /\ seg' = IF Bug = "keep" /\ ~end THEN [seg EXCEPT ![w] = <<Last(@)>>] ELSE [seg EXCEPT ![w] = <<>>]
  /\ pc' = [pc EXCEPT ![w] = "learned"]
  /\ UNCHANGED <<loc, n, tg, cap, syncs, seen>>
Fetch(w) == /\ pc[w] = "learned"
            /\ loc' = IF Bug = "nofetch" THEN loc ELSE [loc EXCEPT ![w] = Ids]
            /\ pc' = [pc EXCEPT ![w] = "idle"]
            /\ UNCHANGED <<applied, seg, n, ep, tg, cap, syncs, seen>>
\* an episode may end right at a segment boundary: nothing is left to learn
Over(w) == /\ Bug = "cross" /\ pc[w] = "idle" /\ seg[w] # <<>>
           /\ ep' = [ep EXCEPT ![w] = @ + 1]
           /\ UNCHANGED <<applied, loc, pc, seg, n, tg, cap, syncs, seen>>
Next == \E w \in Workers : Act(w) \/ Target(w) \/ Learn(w, TRUE) \/ Learn(w, FALSE) \/ Fetch(w) \/ Over(w)
Spec == Init /\ [][Next]_vars

Steps(w) == Flat([j \in 1..Len(SelectSeq(applied, LAMBDA a : a.w = w)) |->
                    SelectSeq(applied, LAMBDA a : a.w = w)[j].seg]) \o seg[w]
\* every step of every worker is learned from exactly once, in order
Once == \A w \in Workers : [j \in 1..Len(Steps(w)) |-> Steps(w)[j][2]] = [j \in 1..n[w] |-> j]
Short == \A j \in 1..Len(applied) : Len(applied[j].seg) \in 1..TMax
OneEpisode == \A j \in 1..Len(applied) : \A k \in 1..Len(applied[j].seg) :
                 applied[j].seg[k][1] = applied[j].seg[1][1]
\* the gradient is taken where the segment was acted: one local model per segment
OneModel == \A j \in 1..Len(applied) : \A k \in 1..Len(applied[j].seg) :
               applied[j].seg[k][3] = applied[j].on
\* an idle worker's model contains all its own updates
Own == \A w \in Workers : pc[w] = "idle" => \A j \in Ids : applied[j].w = w => j \in loc[w]
\* the target follows once per ITarget steps of all workers together
Scheduled == LET wait == {w \in Workers : pc[w] = "acted" /\ cap[w] % ITarget = 0}
             IN Cardinality(syncs) + Cardinality(wait) = tg \div ITarget
=====================================================================================
