------------------------ MODULE ReplayBufferTrace ------------------------
(* Conformance of recorded buffer histories to ReplayBuffer.               *)
(* cfg: n, cap (-1 none), envs (number of envs)                            *)
(* events: append(env,x,term) stop(env) reload save sample(k) -- after     *)
(* each, len and, when observed (seen), the stored windows obs, any order. *)
EXTENDS ReplayBuffer, TraceData
VARIABLES tid, i, st, bad
S0(c) == RBEmpty(1..c.envs)
Post(c, s, e) ==
  CASE e.op = "append" -> RBAppend(s, c.cap, c.n, e.env, e.x, e.term)
    [] e.op = "stop" -> RBStop(s, c.cap, c.n, e.env)
    \* the episode in progress is not part of a saved buffer
    [] e.op = "reload" -> [s EXCEPT !.pend = [k \in DOMAIN s.pend |-> <<>>]]
    [] OTHER -> s
Fails(c, s, e) ==
  LET q == Post(c, s, e)
      er == e.op = "sample" /\ e.k > Len(q.mem)
  IN C("an error is raised exactly when more is asked for than stored",
       er = (e.exc # ""))
     \cup C("len(buffer) is the number of stored windows", e.len = Len(q.mem))
     \cup C("len(buffer) never exceeds the capacity",
            c.cap < 0 \/ e.len <= c.cap)
     \cup (IF ~e.seen \/ e.op = "sample" THEN {} ELSE
          C("every window starts at one transition and lies in one episode of one env",
             \A k \in 1..Len(e.obs) : e.obs[k] \in Range(q.mem))
          \cup C("every complete window is stored (oldest evicted first)",
             \A k \in 1..Len(q.mem) : q.mem[k] \in Range(e.obs))
          \cup C("no window is stored twice", Len(e.obs) = Len(q.mem)))
     \cup (IF e.op # "sample" \/ er THEN {} ELSE
           C("sample returns distinct stored windows",
             /\ Len(e.obs) = e.k /\ Distinct(e.obs)
             /\ Range(e.obs) \subseteq Range(q.mem)))
INSTANCE TraceBase
=========================================================================
