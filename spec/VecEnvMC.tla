------------------------------- MODULE VecEnvMC -------------------------------
(* The pipe protocol of the multiprocess vector env: the parent sends one     *)
(* command to each worker concerned and then receives the answers in index    *)
(* order; workers run at any speed.  Whatever the schedule, what a call       *)
(* returns is what VecEnv says, and close ends every worker.                  *)
EXTENDS VecEnv
CONSTANTS N, Calls
VARIABLES s,        \* the specified state (as if envs were called directly)
          w,        \* hash held by each worker
          inq, outq, alive, nclosed,
          last,     \* the parent's last observations
          pc, call, k, got, left
vars == <<s, w, inq, outq, alive, nclosed, last, pc, call, k, got, left>>
conf == [n |-> N, mp |-> TRUE]
E == 1..N
Init == /\ s = V0(conf) /\ w = s.h /\ inq = [j \in E |-> <<>>]
        /\ outq = [j \in E |-> <<>>] /\ alive = [j \in E |-> TRUE]
        /\ nclosed = [j \in E |-> 0] /\ last = [j \in E |-> 0]
        /\ pc = "idle" /\ call = [op |-> "none"] /\ k = 1
        /\ got = [j \in E |-> 0] /\ left = Calls

Start == /\ pc = "idle" /\ left > 0 /\ left' = left - 1 /\ k' = 1 /\ pc' = "send"
         /\ \/ \E f \in [E -> 0..1] : call' = [op |-> "step", a |-> f]
            \/ \E f \in [E -> BOOLEAN] :
                 /\ (~s.on => f = [j \in E |-> FALSE])
                 /\ call' = [op |-> "reset", mask |-> f]
            \/ \E f \in [E -> 0..1] : call' = [op |-> "seed", s |-> f]
            \/ call' = [op |-> "close"]
         /\ (call'.op = "step" => s.on)
         /\ UNCHANGED <<s, w, inq, outq, alive, nclosed, last, got>>
Wants(j) == ~(call.op = "reset" /\ call.mask[j])
Msg(j) == CASE call.op = "step" -> <<"step", call.a[j]>>
            [] call.op = "reset" -> <<"reset", 0>>
            [] call.op = "seed" -> <<"seed", call.s[j]>>
            [] OTHER -> <<"close", 0>>
Send == /\ pc = "send"
        /\ IF k > N THEN /\ pc' = (IF call.op = "close" THEN "join" ELSE "recv")
                         /\ k' = 1 /\ UNCHANGED inq
           ELSE /\ inq' = IF Wants(k) THEN [inq EXCEPT ![k] = Append(@, Msg(k))] ELSE inq
                /\ k' = k + 1 /\ pc' = pc
        /\ UNCHANGED <<s, w, outq, alive, nclosed, last, call, got, left>>
Work(j) == /\ alive[j] /\ inq[j] # <<>>
           /\ LET m == Head(inq[j])
                  h == CASE m[1] = "step" -> HStep(w[j], m[2])
                         [] m[1] = "reset" -> HReset(w[j])
                         [] m[1] = "seed" -> HSeed(w[j], m[2])
                         [] OTHER -> w[j]
              IN /\ w' = [w EXCEPT ![j] = h]
                 /\ inq' = [inq EXCEPT ![j] = Tail(@)]
                 /\ IF m[1] = "close"
                    THEN /\ alive' = [alive EXCEPT ![j] = FALSE]
                         /\ nclosed' = [nclosed EXCEPT ![j] = @ + 1]
                         /\ UNCHANGED outq
                    ELSE /\ outq' = [outq EXCEPT ![j] = Append(@, h)]
                         /\ UNCHANGED <<alive, nclosed>>
           /\ UNCHANGED <<s, last, pc, call, k, got, left>>
Recv == /\ pc = "recv"
        /\ IF k > N THEN pc' = "ret" /\ UNCHANGED <<k, got, outq>>
           ELSE IF ~Wants(k) THEN /\ got' = [got EXCEPT ![k] = last[k]]
                                  /\ k' = k + 1 /\ UNCHANGED <<pc, outq>>
           ELSE /\ outq[k] # <<>> /\ got' = [got EXCEPT ![k] = Head(outq[k])]
                /\ outq' = [outq EXCEPT ![k] = Tail(@)]
                /\ k' = k + 1 /\ pc' = pc
        /\ UNCHANGED <<s, w, inq, alive, nclosed, last, call, left>>
Join == /\ pc = "join"
        /\ IF k > N THEN pc' = "ret" /\ k' = k
           ELSE ~alive[k] /\ k' = k + 1 /\ pc' = pc
        /\ UNCHANGED <<s, w, inq, outq, alive, nclosed, last, call, got, left>>
Event == CASE call.op = "step" ->
                [op |-> "step", raised |-> FALSE, a |-> call.a, obs |-> got, info |-> got,
                 r |-> [j \in E |-> Rew(got[j])], done |-> [j \in E |-> Done(got[j])]]
           [] call.op = "reset" ->
                [op |-> "reset", raised |-> FALSE, mask |-> call.mask, obs |-> got]
           [] call.op = "seed" -> [op |-> "seed", raised |-> FALSE, s |-> call.s]
           [] OTHER -> [op |-> "close", raised |-> FALSE, closed |-> nclosed,
                        alive |-> Cardinality({j \in E : alive[j]})]
Ret == /\ pc = "ret" /\ pc' = (IF call.op = "close" THEN "closed" ELSE "idle")
       /\ s' = [VPost(conf, s, Event) EXCEPT !.on = TRUE]
       /\ last' = IF call.op \in {"step", "reset"} THEN got ELSE last
       /\ UNCHANGED <<w, inq, outq, alive, nclosed, call, k, got, left>>
Next == Start \/ Send \/ Recv \/ Join \/ Ret \/ \E j \in E : Work(j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Answered == pc = "ret" => VFails(conf, s, Event) = {}
OneAtATime == \A j \in E : Len(inq[j]) + Len(outq[j]) <= 1
NoneLeft == pc \in {"idle", "ret", "closed"} => \A j \in E : inq[j] = <<>> /\ outq[j] = <<>>
AllEnd == [](pc = "join" => <>(pc = "closed"))
===============================================================================
