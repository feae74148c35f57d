---------------------------- MODULE RecurMC -----------------------------
(* The agents' bookkeeping: one batched state for all envs, cleared at the *)
(* envs whose episodes end, saved per step for later updates.              *)
(*  Bug "none"; "done" clears only at terminal states, not at resets;      *)
(*      "after" saves the next state after clearing;                       *)
(*      "eval" evaluation uses the training state                          *)
EXTENDS Recur, TLC
CONSTANTS Bug, MaxOps, NEnv
VARIABLES tr, ev, buf, s, bad, ops, id, ph, cur, eid
vars == <<tr, ev, buf, s, bad, ops, id, ph, cur, eid>>
Cf == [stacks |-> <<<<TRUE>>>>, n |-> NEnv, m |-> 1, mod |-> 37]
Z == <<<<<<0, 0>>>>>>
E0 == [op |-> "", exc |-> "", o |-> <<>>, nx |-> <<>>, a |-> <<>>, end |-> <<>>, calls |-> <<>>]
Call(h, x) == [br |-> 0, l |-> 0, h |-> h[1][1], ids |-> <<x>>]
Judge(e) == bad' = RFails(Cf, s, e) /\ s' = RPost(Cf, s, e) /\ ops' = ops + 1
Init == /\ tr = [i \in 1..NEnv |-> Z] /\ ev = Z /\ buf = <<>> /\ s = RInit(Cf) /\ bad = {}
        /\ ops = 0 /\ id = NEnv /\ ph = "act" /\ cur = [i \in 1..NEnv |-> i] /\ eid = 0
\* an update on a saved step: the observation with its state, the next with its
Replay == IF buf = <<>> THEN {<<>>}
          ELSE {<<Call(buf[k].pre, buf[k].o), Call(buf[k].post, buf[k].n)>> : k \in 1..Len(buf)}
Act == /\ ph = "act" /\ \E u \in Replay :
           LET new == [i \in 1..NEnv |-> Feed(Cf, tr[i], cur[i])] IN
           /\ tr' = new
           /\ Judge([E0 EXCEPT !.op = "act", !.o = cur, !.a = [i \in 1..NEnv |-> OutOf(Cf, new[i])],
                       !.calls = [i \in 1..NEnv |-> Call(tr[i], cur[i])] \o u])
           /\ buf' = buf \o [i \in 1..NEnv |-> [o |-> cur[i], n |-> 0, pre |-> tr[i], post |-> new[i]]]
       /\ ph' = "obs" /\ UNCHANGED <<ev, id, cur, eid>>
Obs == /\ ph = "obs"
       /\ \E end \in [1..NEnv -> {"go", "done", "reset"}] :
            LET nx == [i \in 1..NEnv |-> id + i]
                clr == [i \in 1..NEnv |-> IF end[i] = "done" \/ (end[i] = "reset" /\ Bug # "done")
                                          THEN Z ELSE tr[i]]
                b2 == [k \in 1..Len(buf) |-> IF k > Len(buf) - NEnv
                        THEN [buf[k] EXCEPT !.n = nx[k - Len(buf) + NEnv],
                               !.post = IF Bug = "after" THEN clr[k - Len(buf) + NEnv] ELSE @]
                        ELSE buf[k]]
            IN /\ tr' = clr /\ buf' = b2
               /\ Judge([E0 EXCEPT !.op = "obs", !.nx = nx, !.end = [i \in 1..NEnv |-> end[i] # "go"]])
               /\ cur' = [i \in 1..NEnv |-> IF end[i] = "go" THEN id + i ELSE id + NEnv + i]
               /\ id' = id + (2 * NEnv)
       /\ ph' = "act" /\ UNCHANGED <<ev, eid>>
Eval == /\ ph = "act"
        /\ \E end \in BOOLEAN :
             LET from == IF Bug = "eval" THEN tr[1] ELSE ev
                 x == 200 + eid
                 new == Feed(Cf, from, x)
             IN /\ ev' = IF end THEN Z ELSE new
                /\ Judge([E0 EXCEPT !.op = "eact", !.o = <<x>>, !.a = <<OutOf(Cf, new)>>, !.end = <<end>>])
        /\ eid' = eid + 1 /\ UNCHANGED <<tr, buf, id, ph, cur>>
Next == ops < MaxOps /\ bad = {} /\ (Act \/ Obs \/ Eval)
Sound == bad = {}
=========================================================================
