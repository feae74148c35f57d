------------------------------ MODULE PrioTrace ------------------------------
(* Conformance of prioritized-buffer histories.  cfg: kind (buffer, replay,  *)
(* pepisodic), cap, m0 (initial maximum), waits, norm ("memory", "batch").   *)
(* Probabilities and weights (beta = 1) are scaled by 2^16.                  *)
EXTENDS Prio, Stat, TraceData
VARIABLES tid, i, st, bad
F == 65536
S0(c) == PNew(c.m0)
Err(c, s, e) ==
  CASE e.op = "sample" -> (c.waits /\ s.wait) \/ e.k > Len(s.items)
    [] e.op = "set" -> c.waits /\ ~s.wait
    [] OTHER -> FALSE
Post(c, s, e) ==
  IF Err(c, s, e) THEN s ELSE
  CASE e.op = "append" -> PAppend(s, c.cap, e.x, e.p)
    [] e.op = "popleft" -> PPop(s)
    [] e.op = "sample" -> PSample(s, e.ids, TRUE)
    [] e.op = "set" -> PUpdate(s, e.prios)
    [] OTHER -> s
Q(s, e, k) == MixQ(s, e.rn, PriOf(s, e.ids[k]))
QMem(s, e) == MixQ(s, e.rn, MinP(s))
QBatch(s, e) == LET S == {Q(s, e, k) : k \in 1..Len(e.ids)}
                IN CHOOSE q \in S : \A r \in S : q <= r
Fails(c, s, e) ==
  LET q == Post(c, s, e) er == Err(c, s, e)
      stored == /\ Len(e.ids) = e.k /\ Distinct(e.ids)
                /\ Range(e.ids) \subseteq Ids(s)
      den == 4 * Len(s.items) * Total(s)
  IN
  CASE e.op = "counts" ->
       C("samples are distinct stored items", e.bad = 0)
       \cup C("the first draw follows the current priorities",
              \A k \in 1..Len(s.items) :
                FreqOK(e.first[k], e.N, MixQ(s, e.rn, s.items[k].p), den))
       \cup C("the next draw follows the priorities of the remaining items",
              e.pairs => \A a, b \in 1..Len(s.items) : a # b =>
                LET T == Total(s) pa == s.items[a].p pb == s.items[b].p
                IN FreqOK(e.second[a][b], e.first[a], pb, T - pa))
    [] OTHER ->
  C("sampling twice or updating unsampled items is rejected, and nothing else",
    er = (e.exc # ""))
  \cup C("the size is the number of stored items", e.len = Len(q.items))
  \cup (IF e.op # "sample" \/ er THEN {} ELSE
    C("a sample has distinct stored items", stored)
    \cup (IF ~stored THEN {} ELSE
    C("reported probabilities follow the current priorities",
      c.kind = "buffer" => /\ Len(e.vals) = e.k
        /\ \A k \in 1..e.k : Abs(e.vals[k] * den - F * Q(s, e, k)) <= 2 * den)
    \cup C("the reported minimum probability is that of the memory",
      c.kind = "buffer" =>
        Abs(e.minp * den - F * QMem(s, e)) <= 2 * den)
    \cup C("weights are p_ref / p for beta = 1",
      c.kind # "buffer" => /\ Len(e.vals) = e.k
        /\ LET ref == IF c.norm = "batch" THEN QBatch(s, e) ELSE QMem(s, e)
           IN \A k \in 1..e.k :
                Abs(e.vals[k] * Q(s, e, k) - F * ref) <= 2 * Q(s, e, k))))
INSTANCE TraceBase
==============================================================================
