---------------------------- MODULE EpisodicTrace ----------------------------
EXTENDS Episodic, TraceData
VARIABLES tid, i, st, bad
S0(c) == EPEmpty(1..c.envs)
Post(c, s, e) ==
  CASE e.op = "append" -> EPAppend(s, c.cap, e.env, e.x, e.term)
    [] e.op = "stop" -> EPStop(s, c.cap, e.env)
    \* the episode in progress is not part of a saved buffer
    [] e.op = "reload" -> [s EXCEPT !.cur = [k \in DOMAIN s.cur |-> <<>>]]
    [] OTHER -> s
EpisodeOf(s, x) == CHOOSE k \in 1..Len(s.eps) : x \in Range(s.eps[k])
Fails(c, s, e) ==
  LET q == Post(c, s, e)
      er == \/ e.op = "sub" /\ e.k > Len(q.eps)
            \/ e.op = "sample" /\ e.k > EPLen(q)
  IN C("an error is raised exactly when more is asked for than stored",
       er = (e.exc # ""))
     \cup C("len(buffer) is the number of transitions of stored episodes",
            e.len = EPLen(q))
     \cup C("n_episodes is the number of stored episodes",
            e.neps = Len(q.eps))
     \cup C("len(buffer) never exceeds the capacity",
            c.cap < 0 \/ e.len <= c.cap)
     \cup (IF ~e.seen \/ e.op \in {"sub", "sample"} THEN {} ELSE
           C("the stored episodes are whole finished episodes",
             Range(e.eps) = Range(q.eps) /\ Len(e.eps) = Len(q.eps))
           \cup C("the transition view has exactly the stored episodes' transitions",
             SameBag(Flat(e.obs), Flat(q.eps))
             /\ \A k \in 1..Len(e.obs) : Len(e.obs[k]) = 1))
     \cup (IF e.op # "sub" \/ er THEN {} ELSE
           C("sub-episodes are contiguous parts of distinct episodes of the right length",
             /\ Len(e.obs) = e.k
             /\ \A k \in 1..e.k :
                  /\ e.obs[k] # <<>>
                  /\ e.obs[k][1] \in Range(Flat(q.eps))
                  /\ LET ep == q.eps[EpisodeOf(q, e.obs[k][1])]
                     IN /\ IsSub(e.obs[k], ep)
                        /\ Len(e.obs[k]) = Min2(e.maxlen, Len(ep))
             /\ Cardinality({EpisodeOf(q, e.obs[k][1]) : k \in 1..e.k}) = e.k))
     \cup (IF e.op # "sample" \/ er THEN {} ELSE
           C("sample returns distinct stored transitions",
             /\ Len(e.obs) = e.k /\ Distinct(Flat(e.obs))
             /\ Range(Flat(e.obs)) \subseteq Range(Flat(q.eps))))
INSTANCE TraceBase
==============================================================================
