-------------------------------- MODULE OffPolicyMC --------------------------------
(* Design model: a replay-based agent written as an algorithm (observe, append,    *)
(* synchronize, update), driven through every pattern of episode ends.  Checked:   *)
(* its stored windows, update count and target network against declarative         *)
(* definitions over the history, and that the trace clauses accept what it does.   *)
(* Parameters are version numbers: an update makes version v + 1.                  *)
EXTENDS OffPolicy
CONSTANTS Mode, Envs, NStep, Start, UI, TI, Times, MaxT, Kind
VARIABLES g,     \* the algorithm's state
          s,     \* the abstract state of OffPolicy
          ev,    \* the last event
          eps, cur,   \* history: per env, finished episodes and the one in progress
          szs    \* history: buffer size at each training step
vars == <<g, s, ev, eps, cur, szs>>
N == IF Mode = "single" THEN 1 ELSE Envs
CC == [kind |-> Kind, mode |-> Mode, n_envs |-> N, nstep |-> NStep, cap |-> -1, prio |-> FALSE,
       start |-> Start, B |-> 1, ui |-> UI, ti |-> TI, sync |-> "hard", tau |-> <<1, 1>>,
       times |-> Times, store |-> TRUE, A |-> 1, S |-> 1, delay |-> 2, check |-> "P22"]
P(v) == [w |-> <<v>>]

\* g: buf, obs (per env, the observation to act on; 0: a new one is due), u (next id), t,
\*    on, tg (versions), upd, micro
Snap(h) == [on |-> P(h.on), tg |-> P(h.tg)]
Log(h, k, items) == [h EXCEPT !.micro = Append(@, [k |-> k, items |-> items, w |-> <<K>>,
                       errors |-> <<>>, env |-> 0, n |-> 0, on |-> P(h.on), tg |-> P(h.tg)])]
DoSync(h, tau) == IF tau % TI = 0 /\ Kind \notin {"sac", "td3"} THEN [h EXCEPT !.tg = h.on] ELSE h
RECURSIVE DoUpdates(_, _)
DoUpdates(h, n) ==
  IF n = 0 THEN h
  ELSE LET l == Log(h, "sample", <<h.buf.mem[1]>>)
           u == [l EXCEPT !.on = @ + 1, !.upd = @ + 1]
           \* with tau = 1 a soft update is a copy
           v == IF Kind = "sac" \/ (Kind = "td3" /\ u.upd % 2 = 0) THEN [u EXCEPT !.tg = u.on] ELSE u
       IN DoUpdates(v, n - 1)
Maybe(h, tau) == IF Len(h.buf.mem) < Start \/ tau % UI # 0 THEN h
                 ELSE DoUpdates(h, IF Kind = "sac" THEN 1 ELSE Times)
DoAppend(h, e, x) == LET l == Log(h, "append", <<>>)
                     IN [l EXCEPT !.buf = RBAppend(l.buf, -1, NStep, e, x, x[5])]
DoStop(h, e) == [h EXCEPT !.buf = RBStop(@, -1, NStep, e)]

Event(op, os, dn, rs, acts, h) ==
  [op |-> op, obs |-> os, r |-> [j \in 1..Len(os) |-> 0], done |-> dn, reset |-> rs, act |-> acts,
   raised |-> FALSE, on |-> P(h.on), tg |-> P(h.tg), micro |-> h.micro, n |-> Len(h.buf.mem),
   store |-> h.buf.mem, nupd |-> h.upd]

Init == /\ g = [buf |-> RBEmpty(1..N), obs |-> [e \in 1..N |-> 0], u |-> 1, t |-> 0, on |-> 0,
                tg |-> 0, upd |-> 0, micro |-> <<>>]
        /\ ev = Event("init", <<>>, <<>>, <<>>, <<>>, g)
        /\ s = OPost(CC, S0State(CC), ev)
        /\ eps = [e \in 1..N |-> <<>>] /\ cur = [e \in 1..N |-> <<>>]
        /\ szs = <<>>

Finish(h, e) == /\ g' = [h EXCEPT !.micro = <<>>] /\ ev' = e /\ s' = OPost(CC, s, e)

\* single mode -----------------------------------------------------------------
Step1 ==
  /\ Mode = "single" /\ g.t < MaxT
  /\ LET u == g.u
         x == <<g.obs[1], 0, 0, u, FALSE>>
         a == IF g.obs[1] = 0 THEN g ELSE DoAppend(g, 1, x)
         b == IF Discrete(CC)
              THEN LET q == DoSync(a, g.t) IN [Maybe(q, g.t) EXCEPT !.t = @ + 1]
              ELSE LET q0 == DoSync(g, g.t + 1)
                       q == IF g.obs[1] = 0 THEN q0 ELSE DoAppend(q0, 1, x)
                   IN [Maybe(q, g.t + 1) EXCEPT !.t = @ + 1]
         h == [b EXCEPT !.obs = <<u>>, !.u = u + 1]
     IN /\ Finish(h, Event("step", <<u>>, <<>>, <<>>, <<0>>, h))
        /\ cur' = IF g.obs[1] = 0 THEN cur ELSE [cur EXCEPT ![1] = Append(@, x)]
        /\ eps' = eps
        /\ szs' = Append(szs, Len(h.buf.mem))
End1 ==
  /\ Mode = "single" /\ g.obs[1] # 0
  /\ \E dn \in BOOLEAN :
       LET u == g.u
           x == <<g.obs[1], 0, 0, u, dn>>
           h == [DoStop(DoAppend(g, 1, x), 1) EXCEPT !.obs = <<0>>, !.u = u + 1]
       IN /\ Finish(h, Event("end", <<u>>, <<dn>>, <<>>, <<>>, h))
          /\ eps' = [eps EXCEPT ![1] = Append(@, Append(cur[1], x))]
          /\ cur' = [cur EXCEPT ![1] = <<>>]
          /\ szs' = szs
\* batch mode ------------------------------------------------------------------
Act ==
  /\ Mode = "batch" /\ ev.op # "bact" /\ g.t < MaxT
  /\ LET os == [e \in 1..N |-> IF g.obs[e] # 0 THEN g.obs[e] ELSE g.u + e]
         h == [g EXCEPT !.obs = os, !.u = @ + N + 1]
     IN Finish(h, Event("bact", os, <<>>, <<>>, [e \in 1..N |-> 0], h))
  /\ UNCHANGED <<eps, cur, szs>>
RECURSIVE Observe(_, _, _, _, _)
Observe(h, e, nx, dn, rs) ==
  IF e > N THEN h
  ELSE LET tau == h.t + 1
           a == DoSync([h EXCEPT !.t = tau], tau)
           b == DoAppend(a, e, <<h.obs[e], 0, 0, nx[e], dn[e]>>)
           d == IF dn[e] \/ rs[e] THEN [DoStop(b, e) EXCEPT !.obs[e] = 0]
                ELSE [b EXCEPT !.obs[e] = nx[e]]
       IN Observe(Maybe(d, tau), e + 1, nx, dn, rs)
Obs ==
  /\ Mode = "batch" /\ ev.op = "bact"
  /\ \E dn, rs \in [1..N -> BOOLEAN] :
       LET nx == [e \in 1..N |-> g.u + e]
           h == [Observe(g, 1, nx, dn, rs) EXCEPT !.u = @ + N + 1]
           X(e) == <<g.obs[e], 0, 0, nx[e], dn[e]>>
           \* buffer sizes seen at the training steps of this call
           H(e) == LET M == Observe(g, 1, nx, [j \in 1..N |-> dn[j]], rs) IN M
       IN /\ Finish(h, Event("btrain", nx, dn, rs, <<>>, h))
          /\ eps' = [e \in 1..N |-> IF dn[e] \/ rs[e] THEN Append(eps[e], Append(cur[e], X(e)))
                                    ELSE eps[e]]
          /\ cur' = [e \in 1..N |-> IF dn[e] \/ rs[e] THEN <<>> ELSE Append(cur[e], X(e))]
          /\ szs' = szs
Next == Step1 \/ End1 \/ Act \/ Obs

\* ------------------------------------------------------------------ properties
Windows(ep, over) ==
  {SubSeq(ep, j, Min2(j + NStep - 1, Len(ep))) :
      j \in {j \in 1..Len(ep) : over \/ j + NStep - 1 <= Len(ep)}}
StoredIsExperienced ==
  LET W == UNION {UNION {Windows(eps[e][j], TRUE) : j \in 1..Len(eps[e])}
                  \cup Windows(cur[e], FALSE) : e \in 1..N}
  IN Range(g.buf.mem) = W /\ Cardinality(W) = Len(g.buf.mem)
\* a window never crosses an episode: its transitions are linked and only the last may be terminal
Linked == \A j \in 1..Len(g.buf.mem) : LET w == g.buf.mem[j] IN
            \A q \in 1..(Len(w) - 1) : w[q][4] = w[q + 1][1] /\ ~w[q][5]
UpdatesOnSchedule ==
  Mode = "single" =>
    g.upd = (IF Kind = "sac" THEN 1 ELSE Times) *
            Cardinality({j \in 1..Len(szs) : szs[j] >= Start
                         /\ (IF ZeroBased(CC) THEN j - 1 ELSE j) % UI = 0})
TargetBehind == g.tg <= g.on /\ (Kind = "sac" => g.tg = g.on)
MonitorAccepts ==
  ev.op = "init" \/ \A q \in {"P09", "P22", "P24"} : OFails([CC EXCEPT !.check = q], s, ev) = {}
\* the state before the last event is needed to judge it: checked as an action property
Accepted == [][\A q \in {"P09", "P22", "P24"} : OFails([CC EXCEPT !.check = q], s, ev') = {}]_vars
\* a monitor that accepts anything is worthless: tampered events are rejected
Tampered ==
  [][ev'.op \in {"step", "end", "btrain"} =>
       /\ Len(ev'.store) > 0 =>
            OFails(CC, s, [ev' EXCEPT !.store = Tail(@), !.n = @ - 1]) # {}
       /\ \A j \in 1..Len(ev'.micro) : ev'.micro[j].k = "sample" =>
            OFails([CC EXCEPT !.check = "P09"], s,
                   [ev' EXCEPT !.micro = SubSeq(@, 1, j - 1) \o SubSeq(@, j + 1, Len(@))]) # {}
       /\ OFails([CC EXCEPT !.check = "P24"], s, [ev' EXCEPT !.tg = P(99)]) # {}]_vars
Spec == Init /\ [][Next]_vars
====================================================================================
