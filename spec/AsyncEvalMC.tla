----------------------------- MODULE AsyncEvalMC -----------------------------
(* Workers sharing an evaluator, one atomic step at a time; every finished   *)
(* run must satisfy SharedFails, the judgement used on real runs.            *)
EXTENDS Evaluator
CONSTANTS N, CallsPer, Ival, HeaderLocked, MaxLocked
VARIABLES pc, q, t, sc, file, wrote, prev, best, saved, calls, tmp
vars == <<pc, q, t, sc, file, wrote, prev, best, saved, calls, tmp>>
Hd == [head |-> TRUE]
Ws == 1..N
c == [off |-> 0, int |-> Ival, n |-> 1, save |-> TRUE, async |-> TRUE,
      succ |-> <<>>, episodes |-> FALSE]
Init == /\ pc = [w \in Ws |-> "idle"] /\ q = [w \in Ws |-> 0]
        /\ t = [w \in Ws |-> 0] /\ sc = [w \in Ws |-> 0] /\ file = <<>>
        /\ wrote = FALSE /\ prev = 0 /\ best = <<>> /\ saved = <<>>
        /\ calls = <<>> /\ tmp = [w \in Ws |-> FALSE]
Go(w, p) == pc' = [pc EXCEPT ![w] = p]
Call(w) == /\ pc[w] = "idle" /\ q[w] < CallsPer
           /\ \E d \in 1..3 : t' = [t EXCEPT ![w] = @ + d]
           /\ q' = [q EXCEPT ![w] = @ + 1] /\ Go(w, "check")
           /\ UNCHANGED <<sc, file, wrote, prev, best, saved, calls, tmp>>
Check(w) == /\ pc[w] = "check"
            /\ IF t[w] >= prev + Ival
               THEN /\ prev' = prev + Ival /\ Go(w, IF HeaderLocked THEN "head" ELSE "look")
                    /\ calls' = calls
               ELSE /\ Go(w, "idle") /\ prev' = prev
                    /\ calls' = Append(calls, [t |-> t[w], rets |-> <<>>, ret |-> <<>>, episodes |-> 0])
            /\ UNCHANGED <<q, t, sc, file, wrote, best, saved, tmp>>
Head1(w) == /\ pc[w] = "head" /\ Go(w, "run")
            /\ IF wrote THEN UNCHANGED <<file, wrote>>
               ELSE file' = <<Hd>> /\ wrote' = TRUE
            /\ UNCHANGED <<q, t, sc, prev, best, saved, calls, tmp>>
Look(w) == /\ pc[w] = "look" /\ Go(w, "write") /\ tmp' = [tmp EXCEPT ![w] = wrote]
           /\ UNCHANGED <<q, t, sc, file, wrote, prev, best, saved, calls>>
Write(w) == /\ pc[w] = "write" /\ Go(w, "run")
            /\ IF tmp[w] THEN UNCHANGED <<file, wrote>>
               ELSE file' = <<Hd>> /\ wrote' = TRUE
            /\ UNCHANGED <<q, t, sc, prev, best, saved, calls, tmp>>
Run(w) == /\ pc[w] = "run" /\ Go(w, "row")
          /\ \E x \in 1..3 : sc' = [sc EXCEPT ![w] = x]
          /\ UNCHANGED <<q, t, file, wrote, prev, best, saved, calls, tmp>>
Row(w) == /\ pc[w] = "row" /\ Go(w, IF MaxLocked THEN "max" ELSE "cmp")
          /\ file' = Append(file, [ok |-> TRUE, steps |-> t[w], meanN |-> sc[w],
                       median2 |-> 2 * sc[w], var |-> 0, max |-> sc[w], min |-> sc[w]])
          /\ UNCHANGED <<q, t, sc, wrote, prev, best, saved, calls, tmp>>
Done(w) == calls' = Append(calls, [t |-> t[w], rets |-> <<sc[w]>>, ret |-> <<sc[w]>>, episodes |-> 0])
MaxU(w) == /\ pc[w] = "max" /\ Go(w, "idle") /\ Done(w)
           /\ IF best = <<>> \/ sc[w] > best[1]
              THEN best' = <<sc[w]>> /\ saved' = Append(saved, sc[w])
              ELSE UNCHANGED <<best, saved>>
           /\ UNCHANGED <<q, t, sc, file, wrote, prev, tmp>>
Cmp(w) == /\ pc[w] = "cmp" /\ Go(w, "set") /\ tmp' = [tmp EXCEPT ![w] = best = <<>> \/ sc[w] > best[1]]
          /\ UNCHANGED <<q, t, sc, file, wrote, prev, best, saved, calls>>
Set(w) == /\ pc[w] = "set" /\ Go(w, "idle") /\ Done(w)
          /\ IF tmp[w] THEN best' = <<sc[w]>> /\ saved' = Append(saved, sc[w])
             ELSE UNCHANGED <<best, saved>>
          /\ UNCHANGED <<q, t, sc, file, wrote, prev, tmp>>
Next == \E w \in Ws : \/ Call(w) \/ Check(w) \/ Head1(w) \/ Look(w) \/ Write(w)
                      \/ Run(w) \/ Row(w) \/ MaxU(w) \/ Cmp(w) \/ Set(w)
Heads == {k \in 1..Len(file) : file[k] = Hd}
Final == (\A w \in Ws : pc[w] = "idle" /\ q[w] = CallsPer) =>
   SharedFails(c, [calls |-> calls, headers |-> Cardinality(Heads),
                   headfirst |-> 1 \in Heads, rows |-> SelectSeq(file, LAMBDA r : r # Hd),
                   max |-> best, saved |-> saved]) = {}
==============================================================================
