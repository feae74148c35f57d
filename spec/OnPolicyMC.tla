--------------------------------- MODULE OnPolicyMC ---------------------------------
(* Design model: an on-policy agent written as an algorithm (collect, flush, learn)  *)
(* driven through every pattern of episode ends.  Checked: what it learns from       *)
(* against declarative definitions over the history, the advantages of OnPolicy      *)
(* against their closed form, and that the trace clauses accept what it does and     *)
(* reject tampered logs.                                                             *)
EXTENDS OnPolicy
CONSTANTS Kind, Mode, Envs, UI, BS, Epochs, MaxT
VARIABLES s,     \* abstract state
          g,     \* the algorithm: memory, per-env episode lists, ids, versions
          ev, old,   \* last event, state before it
          hist,  \* all transitions so far, with env and episode number
          sets   \* the datasets learned from so far (sequences of segments)
vars == <<s, g, ev, old, hist, sets>>
N == IF Mode = "single" THEN 1 ELSE Envs
MaxId == 2 * MaxT * N + 2 * N + 4
CC == [kind |-> Kind, mode |-> Mode, n_envs |-> N, ui |-> UI, B |-> BS, epochs |-> Epochs,
       maxlen |-> 0, check |-> "P27", gae |-> TRUE, avg |-> FALSE, g |-> <<1, 2>>,
       lam |-> <<1, 2>>, A |-> 1, S |-> 3, tab |-> [u \in 1..MaxId |-> u % 3], std |-> FALSE]
VT == <<K, -2 * K, 4 * K>>
Rw(u) == ((u % 4) - 1) * K
On(v) == [v |-> VT, ver |-> <<v>>]

\* g: mem, eps (per env list), obs (per env id acted on or 0), u, ver, k, epno, n
Init == /\ g = [mem |-> <<>>, eps |-> [e \in 1..N |-> <<>>], obs |-> [e \in 1..N |-> 0], u |-> 1,
                ver |-> 0, k |-> 0, epno |-> [e \in 1..N |-> 1], t |-> 0]
        /\ ev = [op |-> "init", raised |-> FALSE, micro |-> <<>>, on |-> On(0), loc |-> On(0)]
        /\ s = OPost(CC, S0State(CC), ev) /\ old = s
        /\ hist = <<>> /\ sets = <<>>
Event(op, os, r, dn, rs, micro, ver) ==
  [op |-> op, obs |-> os, r |-> r, done |-> dn, reset |-> rs, act |-> [j \in 1..Len(os) |-> 0],
   raised |-> FALSE, micro |-> micro, on |-> On(ver), loc |-> On(ver)]
Finish(e) == /\ ev' = e /\ old' = s /\ s' = OPost(CC, s, e)

\* the minibatches: the dataset over and over, cut into pieces
Cut(ids, v0) ==
  LET n == Len(ids)
      nb == (Epochs * n + BS - 1) \div BS
      At(q) == ids[((q - 1) % n) + 1]
  IN [j \in 1..nb |-> [k |-> "fwd", who |-> "model", on |-> On(v0 + j - 1),
                       seqs |-> [m \in 1..BS |-> <<At((j - 1) * BS + m)>>]]]
Micro(segs, v0) ==
  IF Kind = "a2c" THEN <<[k |-> "fwd", who |-> "model", on |-> On(v0),
                          seqs |-> [m \in 1..Len(Ids(segs)) |-> <<Ids(segs)[m]>>]]>>
  ELSE Cut(Ids(segs), v0)
Flush(h) == h.mem \o NonEmpty(h.eps)
Ready(h, atend, dn) ==
  CASE Kind = "a2c" -> h.k = UI
    [] Kind = "a3c" -> atend \/ Size(Flush(h)) >= UI
    [] Kind = "reinforce" -> atend /\ dn /\ Len(h.mem) = UI
    [] OTHER -> Size(Flush(h)) >= UI
\* learn if ready: new algorithm state and log
Learn(h, atend, dn) ==
  IF ~Ready(h, atend, dn) THEN [h |-> h, m |-> <<>>, d |-> <<>>]
  ELSE LET d == Flush(h)
           m == Micro(d, h.ver)
       IN [h |-> [h EXCEPT !.mem = <<>>, !.eps = [e \in 1..N |-> <<>>], !.k = 0,
                           !.ver = h.ver + Len(m)], m |-> m, d |-> d]
Note(d) == sets' = IF d = <<>> THEN sets ELSE Append(sets, d)

Step ==
  /\ Mode = "single" /\ g.t < MaxT
  /\ LET u == g.u
         x == <<g.obs[1], 0, Rw(u), u, TRUE>>
         a == IF g.obs[1] = 0 THEN g ELSE [g EXCEPT !.eps[1] = Append(@, x)]
         l == Learn(a, FALSE, FALSE)
     IN /\ g' = [l.h EXCEPT !.obs = <<u>>, !.u = u + 1, !.t = @ + 1]
        /\ hist' = IF g.obs[1] = 0 THEN hist ELSE Append(hist, [x |-> x, e |-> 1, ep |-> g.epno[1]])
        /\ Note(l.d)
        /\ Finish(Event("step", <<u>>, <<Rw(u)>>, <<>>, <<>>, l.m, l.h.ver))
End ==
  /\ Mode = "single" /\ g.obs[1] # 0
  /\ \E dn \in BOOLEAN :
       LET u == g.u
           x == <<g.obs[1], 0, Rw(u), u, ~dn>>
           keep == Kind # "reinforce" \/ dn
           a == [g EXCEPT !.mem = IF keep THEN Append(@, Append(g.eps[1], x)) ELSE @,
                          !.eps = <<(<<>>)>>]
           l == Learn(a, TRUE, dn)
       IN /\ g' = [l.h EXCEPT !.obs = <<0>>, !.u = u + 1, !.epno[1] = @ + 1]
          \* REINFORCE forgets an episode that did not finish
          /\ hist' = IF keep THEN Append(hist, [x |-> x, e |-> 1, ep |-> g.epno[1]])
                     ELSE SelectSeq(hist, LAMBDA z : z.ep # g.epno[1])
          /\ Note(l.d)
          /\ Finish(Event("end", <<u>>, <<Rw(u)>>, <<dn>>, <<>>, l.m, l.h.ver))
Act ==
  /\ Mode = "batch" /\ ev.op # "bact" /\ g.t < MaxT
  /\ LET os == [e \in 1..N |-> IF g.obs[e] # 0 THEN g.obs[e] ELSE g.u + e - 1]
     IN /\ g' = [g EXCEPT !.obs = os, !.u = @ + N, !.t = @ + 1]
        /\ Finish(Event("bact", os, <<>>, <<>>, <<>>, <<>>, g.ver))
  /\ UNCHANGED <<hist, sets>>
Obs ==
  /\ Mode = "batch" /\ ev.op = "bact"
  /\ \E dn, rs \in [1..N -> BOOLEAN] :
       LET nx == [e \in 1..N |-> g.u + e - 1]
           term(e) == dn[e] \/ (Kind = "a2c" /\ rs[e])
           X(e) == <<g.obs[e], 0, Rw(nx[e]), nx[e], ~term(e)>>
           stop(e) == dn[e] \/ rs[e]
           RECURSIVE Closed(_)
           Closed(e) == IF e > N THEN <<>>
                        ELSE (IF stop(e) THEN <<Append(g.eps[e], X(e))>> ELSE <<>>) \o Closed(e + 1)
           a == [g EXCEPT !.mem = @ \o Closed(1), !.k = @ + 1,
                          !.eps = [e \in 1..N |-> IF stop(e) THEN <<>> ELSE Append(g.eps[e], X(e))],
                          !.obs = [e \in 1..N |-> IF stop(e) THEN 0 ELSE nx[e]],
                          !.u = @ + N,
                          !.epno = [e \in 1..N |-> IF stop(e) THEN @[e] + 1 ELSE @[e]]]
           l == Learn(a, FALSE, FALSE)
       IN /\ g' = l.h
          /\ hist' = hist \o [e \in 1..N |-> [x |-> X(e), e |-> e, ep |-> g.epno[e]]]
          /\ Note(l.d)
          /\ Finish(Event("btrain", nx, [e \in 1..N |-> Rw(nx[e])], dn, rs, l.m, l.h.ver))
Next == Step \/ End \/ Act \/ Obs
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------ properties
Pending == All(s)
\* every transition is in exactly one dataset, or waiting
Partition == SameBag(Flat(Flat(sets) \o Pending), [j \in 1..Len(hist) |-> hist[j].x])
\* a segment is one env's consecutive transitions of one episode, nonterminal up to the last
Segments == \A q \in Range(Flat(sets) \o Pending) :
              /\ \A j \in 1..(Len(q) - 1) : q[j][4] = q[j + 1][1] /\ q[j][5]
              /\ \E e \in 1..N : \E p \in 1..Len(hist) :
                    \A j \in 1..Len(q) : \E h \in Range(hist) :
                       h.x = q[j] /\ h.e = e /\ h.ep = hist[p].ep
Sizes == Fam(CC) = "ppo" => \A j \in 1..Len(sets) : Size(sets[j]) \in UI..(UI + N - 1)
SizesA2C == Kind = "a2c" => \A j \in 1..Len(sets) : Size(sets[j]) = UI * N
SizesA3C == Kind = "a3c" => \A j \in 1..Len(sets) : Size(sets[j]) <= UI /\ Len(sets[j]) = 1
SizesRF == Kind = "reinforce" => \A j \in 1..Len(sets) : Len(sets[j]) = UI
SameMemory == Flush(g) = Pending \/ SameBag(Flat(Flush(g)), Flat(Pending))
\* closed form of the advantages: sum of discounted TD errors, cut at a terminal state
Td(x) == x[3] + (IF x[5] THEN VT[CC.tab[x[4]] + 1] \div 2 ELSE 0) - VT[CC.tab[x[1]] + 1]
\* discount gamma lambda = 1/4
RECURSIVE Q4(_, _)
Q4(n, x) == IF n = 0 THEN x ELSE Q4(n - 1, x \div 4)
Closed4 == \A q \in Range(Pending) : LET ad == Adv(CC, On(0), q) IN
             Fam(CC) = "ppo" =>
             \A j \in 1..Len(q) :
                ad[j] = Sum([d \in 1..(Len(q) - j + 1) |-> Q4(d - 1, Td(q[j + d - 1]))])
\* with lambda = 1 the value target is the discounted return
RECURSIVE Ret(_, _)
Ret(q, j) == q[j][3] + (IF ~q[j][5] THEN 0
                        ELSE (IF j = Len(q) THEN VT[CC.tab[q[j][4]] + 1] ELSE Ret(q, j + 1)) \div 2)
Lambda1 == LET c1 == [CC EXCEPT !.lam = <<1, 1>>] IN \A q \in Range(Pending) :
             LET ad == Adv(c1, On(0), q) IN
             \A j \in 1..Len(q) : ad[j] + VT[CC.tab[q[j][1]] + 1] = Ret(q, j)
Judged == Fam(CC) \in {"ppo", "a2c"}
Accepted == [][Judged => OFails(CC, s, ev') = {}]_vars
Swap(e, m) == [e EXCEPT !.micro = m]
Tampered ==
  [][Judged /\ ev'.op \in {"step", "end", "btrain"} =>
       LET m == ev'.micro IN
       /\ m # <<>> => OFails(CC, s, Swap(ev', <<>>)) # {}
       /\ m # <<>> => OFails(CC, s, Swap(ev', Tail(m))) # {}
       \* the same transition twice in place of another
       /\ (m # <<>> /\ Len(m[1].seqs) > 1) =>
             OFails(CC, s, [ev' EXCEPT !.micro[1].seqs[1] = m[1].seqs[2]]) # {}
       /\ m = <<>> => OFails(CC, s, [ev' EXCEPT !.on = On(99)]) # {}]_vars
=====================================================================================
