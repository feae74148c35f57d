------------------------------ MODULE Evaluator ------------------------------
(* Periodic evaluations: when they happen, what is written, what is best.    *)
(* c: off, int (interval), n (episodes per evaluation), save, async, succ    *)
EXTENDS Util

EV0(c) == [prev |-> c.off - (c.off % c.int), evals |-> 0, best |-> <<>>,
           rows |-> 0, over |-> FALSE]
Due(c, s, t) == t >= s.prev + c.int

\* order statistics of a non-empty sequence of integers
Sorted(q) == CHOOSE p \in [1..Len(q) -> Range(q)] :
               /\ \A k \in 1..(Len(q) - 1) : p[k] <= p[k + 1]
               /\ \A x \in Range(q) : Cardinality({k \in 1..Len(q) : p[k] = x})
                                      = Cardinality({k \in 1..Len(q) : q[k] = x})
Median2(q) == LET p == Sorted(q) n == Len(q)
              IN p[(n + 1) \div 2] + p[(n \div 2) + 1]
Sqs(q) == Sum([k \in 1..Len(q) |-> q[k] * q[k]])
\* n (n - 1) times the sample variance
VarN(q) == Len(q) * Sqs(q) - Sum(q) * Sum(q)

\* the row of an evaluation with returns q: sums and products make it integral
RowFails(c, q, row, t, episodes) ==
  C("a row has all the columns", row.ok)
  \cup C("the row names the step and the finished episodes",
         row.steps = t /\ (c.episodes => row.episodes = episodes))
  \cup C("mean", row.meanN = Sum(q))
  \cup C("median", row.median2 = Median2(q))
  \cup C("standard deviation", row.var = VarN(q))
  \cup C("maximum and minimum",
         /\ row.max = Sorted(q)[Len(q)] /\ row.min = Sorted(q)[1])

Better(s, sum) == s.best = <<>> \/ sum > s.best[1]

EVFails(c, s, e) ==
  CASE e.op = "call" ->
     C("an evaluation is run exactly when an interval boundary was crossed",
       Due(c, s, e.t) <=> e.rets # <<>>)
     \cup C("an evaluation runs the number of episodes given",
            e.rets # <<>> => Len(e.rets) = c.n)
     \cup C("no evaluation after training was successful", e.rets # <<>> => ~s.over)
     \cup C("one row is written per evaluation",
            Len(e.rows) = IF e.rets = <<>> THEN 0 ELSE 1)
     \cup (IF e.rets # <<>> /\ Len(e.rets) = c.n /\ Len(e.rows) = 1
           THEN RowFails(c, e.rets, e.rows[1], e.t, e.episodes) ELSE {})
     \cup C("the header is written once, before any scores",
            (s.rows > 0 \/ e.rows # <<>>) => e.headers = 1 /\ e.headfirst)
     \cup C("the best agent is saved exactly when a mean exceeds all previous ones",
            e.saves = IF c.save /\ e.rets # <<>> /\ Better(s, Sum(e.rets)) THEN 1 ELSE 0)
     \cup C("the score of the evaluation is returned",
            e.seenret => e.ret = IF e.rets = <<>> THEN <<>> ELSE <<Sum(e.rets)>>)
     \cup C("the best score is the maximum of the means",
            e.seenmax => LET b == IF e.rets # <<>> /\ Better(s, Sum(e.rets))
                                  THEN <<Sum(e.rets)>> ELSE s.best
                         IN b # <<>> => e.max = b)
  [] e.op = "stop" ->
     C("training stops before the last step only after a success",
       e.t < c.steps => s.over)
  [] OTHER -> {"no other call is made: " \o e.op}
EVPost(c, s, e) ==
  IF e.op # "call" \/ e.rets = <<>> THEN s
  ELSE [s EXCEPT !.prev = IF c.async THEN @ + c.int ELSE e.t - (e.t % c.int),
                 !.evals = @ + 1, !.rows = @ + 1,
                 !.best = IF Better(s, Sum(e.rets)) THEN <<Sum(e.rets)>> ELSE @,
                 !.over = c.succ # <<>> /\ Sum(e.rets) >= c.succ[1] * c.n]

\* Several workers sharing an evaluator, seen after the fact: calls is a
\* sequence of [t, rets, ret], in any order.
SharedFails(c, e) ==
  LET base == c.off - (c.off % c.int)
      ran == {k \in 1..Len(e.calls) : e.calls[k].rets # <<>>}
      n == Cardinality(ran)
      means == {Sum(e.calls[k].rets) : k \in ran}
      top == CHOOSE m \in means : \A z \in means : z <= m
      Up(m) == Cardinality({k \in ran : e.calls[k].t >= base + m * c.int})
  IN C("each interval boundary is used for at most one evaluation",
       \A m \in 1..n : Up(m) >= n - m + 1)
     \cup C("no boundary is skipped",
            \A k \in 1..Len(e.calls) : k \notin ran => e.calls[k].t < base + (n + 1) * c.int)
     \cup C("the number of episodes given is run", \A k \in ran : Len(e.calls[k].rets) = c.n)
     \cup C("the score of the evaluation is returned",
            \A k \in 1..Len(e.calls) :
              e.calls[k].ret = IF k \in ran THEN <<Sum(e.calls[k].rets)>> ELSE <<>>)
     \cup C("the header is written once, before any scores",
            IF n = 0 THEN e.headers <= 1 ELSE e.headers = 1 /\ e.headfirst)
     \cup C("one row is written per evaluation", Len(e.rows) = n)
     \cup C("every row is that of an evaluation",
            \A r \in 1..Len(e.rows) : \E k \in ran :
               Len(e.calls[k].rets) = c.n /\
               RowFails(c, e.calls[k].rets, e.rows[r], e.calls[k].t, e.calls[k].episodes) = {})
     \cup C("every evaluation has its row",
            \A k \in ran : \E r \in 1..Len(e.rows) : e.rows[r].steps = e.calls[k].t
                                             /\ e.rows[r].meanN = Sum(e.calls[k].rets))
     \cup C("the best score is the maximum of the means", n > 0 => e.max = <<top>>)
     \cup C("agents are saved as best with ever better means, up to the best",
            IF c.save THEN
               /\ \A k \in 1..(Len(e.saved) - 1) : e.saved[k] < e.saved[k + 1]
               /\ n > 0 => e.saved # <<>> /\ Last(e.saved) = top
               /\ Range(e.saved) \subseteq means
            ELSE e.saved = <<>>)
==============================================================================
