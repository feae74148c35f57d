------------------------------- MODULE AsyncMC -------------------------------
(* The asynchronous training algorithm: worker processes over shared         *)
(* counters, one atomic access at a time.  Its visible actions are the       *)
(* events of Async; acc follows them, and every behaviour of the algorithm   *)
(* must be accepted.  With Gen, the schedule and the answers of envs and     *)
(* evaluations are recorded as a scenario to be replayed against the code.   *)
EXTENDS Async, TLC, Json
CONSTANTS Ns, StepsS, MaxLens, Hooks, Succs, Scores, Gen, Locked, W
VARIABLES c, pc, gt, sh, x, acc, fl, sched, ans
vars == <<c, pc, gt, sh, x, acc, fl, sched, ans>>
Confs == [n : Ns, steps : StepsS, maxlen : MaxLens, hooks : Hooks,
          ev : BOOLEAN, succ : Succs, int : {1, 2}]
Ws == 1..c.n
Init == /\ c \in {k \in Confs : k.ev \/ (k.succ = -1 /\ k.int = 1)}
        /\ pc = [i \in Ws |-> "reset"] /\ gt = [i \in Ws |-> 0]
        /\ sh = [counter |-> 0, prev |-> 0, max |-> -1, done |-> FALSE]
        /\ x = [i \in Ws |-> [obs |-> 0, r |-> 0, len |-> 0, done |-> FALSE,
                              nr |-> FALSE, hk |-> 0, a |-> 0, score |-> -1,
                              mine |-> FALSE, tmp |-> 0]]
        /\ acc = AS0(c) /\ fl = {} /\ sched = <<>>
        /\ ans = [i \in Ws |-> [env |-> <<>>, ev |-> <<>>]]
\* a visible call e of worker e.w
Vis(e) == /\ fl' = ASFails(c, acc, e) /\ acc' = ASPost(c, acc, e)
          /\ sched' = IF Gen /\ e.op # "end" THEN Append(sched, e.w) ELSE sched
Silent == UNCHANGED <<fl, acc, sched>>
Keep == UNCHANGED <<c>>
Go(i, p) == pc' = [pc EXCEPT ![i] = p]
NoAns == UNCHANGED ans

Reset(i) == /\ pc[i] = "reset" /\ Go(i, "act")
            /\ x' = [x EXCEPT ![i].obs = @ + 1, ![i].r = 0, ![i].len = 0]
            /\ Vis([op |-> "reset", w |-> i, obs |-> x[i].obs + 1])
            /\ UNCHANGED <<gt, sh>> /\ NoAns
Act(i) == /\ pc[i] = "act" /\ Go(i, "step")
          /\ x' = [x EXCEPT ![i].a = IF Gen THEN @ + 1 ELSE 1]
          /\ Vis([op |-> "act", w |-> i, obs |-> x[i].obs, r |-> x[i].r,
                  a |-> x'[i].a])
          /\ UNCHANGED <<gt, sh>> /\ NoAns
Step(i, done, nr) ==
          /\ pc[i] = "step" /\ Go(i, IF Locked THEN "incr" ELSE "read")
          /\ x' = [x EXCEPT ![i].obs = IF Gen THEN @ + 1 ELSE (@ + 1) % 3, ![i].r = 1, ![i].len = @ + 1,
                            ![i].done = done, ![i].nr = nr, ![i].hk = 0]
          /\ Vis([op |-> "step", w |-> i, a |-> x[i].a, obs |-> x'[i].obs,
                  r |-> 1, done |-> done, nr |-> nr])
          /\ ans' = IF Gen THEN [ans EXCEPT ![i].env = Append(@, [done |-> done, nr |-> nr])]
                    ELSE ans
          /\ UNCHANGED <<gt, sh>>
Incr(i) == /\ pc[i] = "incr" /\ Go(i, "hook")
           /\ sh' = [sh EXCEPT !.counter = @ + 1]
           /\ gt' = [gt EXCEPT ![i] = sh.counter + 1]
           /\ Silent /\ NoAns /\ UNCHANGED x
\* what goes wrong without the lock
Read(i) == /\ pc[i] = "read" /\ Go(i, "write")
           /\ x' = [x EXCEPT ![i].tmp = sh.counter + 1]
           /\ Silent /\ NoAns /\ UNCHANGED <<gt, sh>>
Write(i) == /\ pc[i] = "write" /\ Go(i, "hook")
            /\ sh' = [sh EXCEPT !.counter = x[i].tmp]
            /\ gt' = [gt EXCEPT ![i] = x[i].tmp]
            /\ Silent /\ NoAns /\ UNCHANGED x
Hook(i) == /\ pc[i] = "hook"
           /\ x' = [x EXCEPT ![i].hk = @ + 1]
           /\ Go(i, IF x[i].hk + 1 = c.hooks THEN "check" ELSE "hook")
           /\ Vis([op |-> "hook", w |-> i, j |-> x[i].hk + 1, t |-> gt[i], same |-> TRUE])
           /\ UNCHANGED <<gt, sh>> /\ NoAns
Check(i) == /\ pc[i] = "check"
            /\ Go(i, IF \/ x[i].done \/ x[i].nr \/ (c.maxlen > 0 /\ x[i].len = c.maxlen)
                        \/ gt[i] >= c.steps \/ sh.done
                     THEN "stop" ELSE "act")
            /\ Silent /\ NoAns /\ UNCHANGED <<gt, sh, x>>
Stop(i) == /\ pc[i] = "stop" /\ Go(i, "evalq")
           /\ Vis([op |-> "stop", w |-> i, obs |-> x[i].obs, r |-> x[i].r,
                   done |-> x[i].done])
           /\ UNCHANGED <<gt, sh, x>> /\ NoAns
EvalQ(i) == /\ pc[i] = "evalq"
            /\ IF c.ev /\ gt[i] >= sh.prev + c.int
               THEN Go(i, "estep") /\ sh' = [sh EXCEPT !.prev = @ + c.int]
               ELSE Go(i, "again") /\ sh' = sh
            /\ Silent /\ NoAns /\ UNCHANGED <<gt, x>>
EStep(i, sc) == /\ pc[i] = "estep" /\ Go(i, "max")
                /\ x' = [x EXCEPT ![i].score = sc]
                /\ Vis([op |-> "estep", w |-> i, score |-> sc])
                /\ ans' = IF Gen THEN [ans EXCEPT ![i].ev = Append(@, sc)] ELSE ans
                /\ UNCHANGED <<gt, sh>>
MaxUpd(i) == /\ pc[i] = "max"
             /\ Go(i, IF c.succ >= 0 /\ x[i].score >= c.succ THEN "setdone" ELSE "again")
             /\ IF x[i].score > sh.max
                THEN /\ sh' = [sh EXCEPT !.max = x[i].score]
                     /\ Vis([op |-> "best", w |-> i])
                ELSE sh' = sh /\ Silent
             /\ NoAns /\ UNCHANGED <<gt, x>>
SetDone(i) == /\ pc[i] = "setdone" /\ Go(i, "exit")
              /\ sh' = [sh EXCEPT !.done = TRUE]
              /\ x' = [x EXCEPT ![i].mine = ~sh.done]
              /\ Silent /\ NoAns /\ UNCHANGED gt
Again(i) == /\ pc[i] = "again"
            /\ Go(i, IF gt[i] >= c.steps \/ sh.done THEN "exit" ELSE "reset")
            /\ Silent /\ NoAns /\ UNCHANGED <<gt, sh, x>>
Exit(i) == /\ pc[i] = "exit" /\ Go(i, "exit2")
           /\ IF gt[i] = c.steps THEN Vis([op |-> "finish", w |-> i, t |-> c.steps])
              ELSE Silent
           /\ NoAns /\ UNCHANGED <<gt, sh, x>>
Exit2(i) == /\ pc[i] = "exit2" /\ Go(i, "gone")
            /\ IF x[i].mine THEN Vis([op |-> "successful", w |-> i]) ELSE Silent
            /\ NoAns /\ UNCHANGED <<gt, sh, x>>
End == /\ \A i \in Ws : pc[i] = "gone" /\ ~acc.ended
       /\ Vis([op |-> "end", ok |-> TRUE]) /\ NoAns /\ UNCHANGED <<gt, sh, x, pc>>
B == {TRUE, FALSE}
Next == /\ Keep /\ fl = {}
        /\ \/ \E i \in Ws :
              \/ Reset(i) \/ Act(i) \/ Incr(i) \/ Read(i) \/ Write(i) \/ Hook(i)
              \/ Check(i) \/ Stop(i) \/ EvalQ(i) \/ MaxUpd(i) \/ SetDone(i)
              \/ Again(i) \/ Exit(i) \/ Exit2(i)
              \/ \E d \in B, nr \in B : Step(i, d, nr)
              \/ \E w \in 1..W : Step(i, FALSE, FALSE)
              \/ \E sc \in Scores : EStep(i, sc)
           \/ End
Accepted == fl = {}
\* independent of the acceptor
Numbers == \A i, j \in Ws : i # j /\ gt[i] > 0 => gt[i] # gt[j]
AtMostOneOver == \A i \in Ws : (gt[i] >= c.steps) => pc[i] \notin {"reset", "act", "step"}
OneFinal == Cardinality({i \in Ws : gt[i] = c.steps}) <= 1
OneWinner == Cardinality({i \in Ws : x[i].mine}) <= 1
Bounded == sh.counter <= c.steps + c.n - 1
AllStop == acc.ended => /\ Cardinality({i \in Ws : gt[i] = c.steps}) = 1 \/ sh.done
Emit == Gen /\ acc.ended => PrintT(<<"B", ToJson([c |-> c, sched |-> sched, ans |-> ans])>>)
NoOrOne == {-1, 1}
===============================================================================
