----------------------------- MODULE EvalBatchMC -----------------------------
(* The fairness of batch evaluation, stated without episode numbers: whether *)
(* an episode is scored never depends on how it or a later one turns out.    *)
EXTENDS EvalBatch
CONSTANTS MaxN, N, MaxT
VARIABLES c, s, t, hist
B == {TRUE, FALSE}
V(x) == [i \in 1..N |-> x]
Init == /\ c \in [n : {N}, steps : 0..MaxN, eps : 0..MaxN, maxlen : {0, 2}]
        /\ (c.steps = 0) # (c.eps = 0)
        /\ s = EB0(c) /\ t = 0 /\ hist = <<>>
\* one round of the protocol at a time
Round(d) ==
  LET s1 == IF t = 0 THEN EBPost(c, s, [op |-> "reset", reset |-> 1..N, obs |-> V(1)])
            ELSE IF s.ended = {} THEN s
            ELSE EBPost(c, s, [op |-> "reset", reset |-> s.ended, obs |-> V(1)])
      s2 == EBPost(c, s1, [op |-> "eact", obs |-> V(1), a |-> V(0)])
      s3 == EBPost(c, s2, [op |-> "step", a |-> V(0), obs |-> V(1),
                           r |-> [i \in 1..N |-> i], done |-> d, nr |-> V(FALSE)])
  IN EBPost(c, s3, [op |-> "eobserve", obs |-> V(1), r |-> V(1), done |-> d, reset |-> V(FALSE)])
Over == s.ph = "post" /\ Determined(c, s)
Next == /\ ~Over /\ t < MaxT
        /\ \E d \in [1..N -> B] : s' = Round(d) /\ hist' = Append(hist, d)
        /\ t' = t + 1 /\ c' = c
\* steps played by the env of each episode add up
Played == LET Of(i) == {k \in 1..Len(s.eps) : s.eps[k].env = i}
          IN \A i \in 1..N : SumOver(Of(i), LAMBDA k : s.eps[k].len) = t
EpsInOrder == \A j, k \in 1..Len(s.eps) : (j < k /\ s.eps[j].env = s.eps[k].env) => s.eps[j].full
Scored == Over =>
  LET r == Result(c, s) IN
  /\ c.eps > 0 => Len(r) = c.eps
  /\ c.steps > 0 => \/ Lens(s, Len(r)) <= c.steps
                    \/ Len(r) = 1
  /\ \A k \in 1..Len(r) : r[k] = s.eps[k].env * s.eps[k].len
\* the result is settled: whatever happens next does not change it
Settled == Over => \A d \in [1..N -> B] :
   LET z == [Round(d) EXCEPT !.ph = "post"]
   IN (c.eps > 0 \/ Prefix(s) > 0) =>
      Result(c, z) = Result(c, s) \/ (c.steps > 0 /\ Lens(s, 1) > c.steps)
\* and not before
NotEarly == (t > 0 /\ ~Over /\ c.steps > 0) =>
   \E d \in [1..N -> B] : LET k == Prefix(s) z == Round(d)
                          IN Prefix(z) > k /\ Lens(z, k + 1) <= c.steps
==============================================================================
