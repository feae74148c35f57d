---------------------------------- MODULE OnPolicy ----------------------------------
(* On-policy agents (PPO, TRPO, A2C, A3C, REINFORCE): which transitions they learn   *)
(* from, when, and what an update does to tabular policies and value functions.      *)
(* Reals are integers scaled by K; probabilities (p) by 16 K.                        *)
(* s: mem    finished segments (sequences of transitions of one env's episode)       *)
(*    cur    per env the segment in progress                                         *)
(*    pend   per env the observation acted on and the action, <<>> if none           *)
(*    k      A2C: steps since the last update;  REINFORCE: episodes since then       *)
(*    avg    A3C: average reward                                                     *)
(* A transition is <<o, a, r, o2, nonterminal>>.                                     *)
EXTENDS Util

K == 8192
Mul(a, b) == (a \div K) * b + ((a % K) * b) \div K
Near(a, b, tol) == Abs(a - b) <= tol
NearSeq(x, y, tol) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : Near(x[j], y[j], tol)
RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) ==   \* lo^2 <= n < hi^2
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Isqrt(n, m, hi) ELSE Isqrt(n, lo, m)

\* ------------------------------------------------------------------ configuration
Fam(c) == CASE c.kind \in {"ppo", "ppo_r"} -> "ppo"
            [] c.kind \in {"trpo", "trpo_r"} -> "trpo"
            [] OTHER -> c.kind
Recur(c) == c.kind \in {"ppo_r", "trpo_r"}
Ga(c, x) == (x * c.g[1]) \div c.g[2]
Lam(c) == IF c.kind = "a2c" /\ ~c.gae THEN <<1, 1>>
          ELSE IF c.kind = "a3c" THEN <<1, 1>> ELSE c.lam
Rate(c, n, x) == (c.lr[1] * x) \div (c.lr[2] * n)

\* ------------------------------------------------------------------ targets
St(c, u) == c.tab[u]
V(c, on, u) == on.v[St(c, u) + 1]
\* advantages of a segment, last first
RECURSIVE AdvRev(_, _, _, _)
AdvRev(c, on, seg, nxt) ==
  IF seg = <<>> THEN <<>>
  ELSE LET x == Last(seg)
           td == x[3] + (IF x[5] THEN Ga(c, V(c, on, x[4])) ELSE 0) - V(c, on, x[1])
           adv == td + (IF x[5] THEN (Ga(c, nxt) * Lam(c)[1]) \div Lam(c)[2] ELSE 0)
       IN <<adv>> \o AdvRev(c, on, SubSeq(seg, 1, Len(seg) - 1), adv)
Adv(c, on, seg) == Rev(AdvRev(c, on, seg, 0))
\* per observation id: what is learned about it
Facts(c, on, segs) ==
  LET One(seg) == LET ad == Adv(c, on, seg)
                  IN {[u |-> seg[j][1], a |-> seg[j][2], adv |-> ad[j],
                       T |-> ad[j] + V(c, on, seg[j][1]), v0 |-> V(c, on, seg[j][1]),
                       p0 |-> on.p[St(c, seg[j][1]) * c.A + seg[j][2] + 1]] : j \in 1..Len(seg)}
      F == UNION {One(segs[j]) : j \in 1..Len(segs)}
  IN [u \in {f.u : f \in F} |-> CHOOSE f \in F : f.u = u]
Ids(segs) == LET f == Flat(segs) IN [j \in 1..Len(f) |-> f[j][1]]
Size(segs) == Len(Flat(segs))

\* standardized advantages: <<mean, std>>; std 0 if it cannot be followed
MeanStd(F) ==
  LET U == DOMAIN F
      n == Cardinality(U)
      m == SumOver(U, LAMBDA u : F[u].adv) \div n
      big == \E u \in U : Abs(F[u].adv - m) > 15 * K
      var == SumOver(U, LAMBDA u : Mul(F[u].adv - m, F[u].adv - m)) \div n
      sd == IF big \/ var > 25 * K THEN 0 ELSE Isqrt(var * K, 0, 46340)
  IN <<m, IF sd < K \div 2 THEN 0 ELSE sd>>
Norm(c, ms, adv) == IF c.std THEN ((adv - ms[1]) * K) \div ms[2] ELSE adv

\* gradient of sum_j w[j] log pi(a_j | s_j) with respect to logit (st, b)
PolSum(c, on, q, w(_), st, b) ==
  Sum([j \in 1..Len(q) |->
        IF St(c, q[j][1]) # st THEN 0
        ELSE Mul(w(j), (IF q[j][2] = b THEN K ELSE 0) - on.p[st * c.A + b + 1] \div 16)])
EntSum(c, on, q, st, b) ==
  Sum([j \in 1..Len(q) |-> IF St(c, q[j][1]) # st THEN 0 ELSE on.hg[st * c.A + b + 1]])
Big(on) == \E j \in 1..Len(on.l) : Abs(on.l[j]) > 6 * K
BigV(on) == \E j \in 1..Len(on.v) : Abs(on.v[j]) > 6 * K
Cell(c, x) == <<(x - 1) \div c.A, (x - 1) % c.A>>
Tol == 40

\* ---- PPO: one minibatch. x: snapshot before, y: after, F: facts of the dataset
PPOStep(c, F, ms, x, y) ==
  LET us == Flat(x.seqs)
      n == Len(us)
      q == [j \in 1..n |-> <<us[j], F[us[j]].a>>]
      ratio(j) == (x.on.p[St(c, us[j]) * c.A + F[us[j]].a + 1] * K) \div F[us[j]].p0
      adv(j) == Norm(c, ms, F[us[j]].adv)
      eps == c.eps * (K \div 16)
      murky == \/ c.std /\ ms[2] = 0
               \/ \E j \in 1..n : \/ F[us[j]].p0 < 2000
                                  \/ Abs(Abs(ratio(j) - K) - eps) < 40
                                  \/ ratio(j) > 8 * K
                                  \/ Abs(adv(j)) > 24 * K
      w(j) == IF (adv(j) > 0 /\ ratio(j) > K + eps) \/ (adv(j) < 0 /\ ratio(j) < K - eps)
              THEN 0 ELSE Mul(adv(j), ratio(j))
      NewL == [p \in 1..Len(x.on.l) |->
                 LET z == Cell(c, p)
                 IN x.on.l[p] + Rate(c, n, PolSum(c, x.on, q, w, z[1], z[2])
                                           + (c.ec * EntSum(c, x.on, q, z[1], z[2])) \div 16)]
      epsv == c.epsv * (K \div 16)
      v(j) == V(c, x.on, us[j])
      vc(j) == LET f == F[us[j]] IN Min2(Max2(v(j), f.v0 - epsv), f.v0 + epsv)
      murkyv == c.epsv > 0 /\ \E j \in 1..n :
                  \/ Abs(Abs(v(j) - F[us[j]].v0) - epsv) < 40
                  \/ v(j) # vc(j) /\ Abs(Abs(v(j) - F[us[j]].T) - Abs(vc(j) - F[us[j]].T)) < 40
      g(j) == IF c.epsv = 0 \/ Abs(v(j) - F[us[j]].T) >= Abs(vc(j) - F[us[j]].T)
              THEN c.vc * (F[us[j]].T - v(j)) ELSE 0
      NewV == [p \in 1..Len(x.on.v) |->
                 x.on.v[p] + Rate(c, n, Sum([j \in 1..n |->
                                              IF St(c, us[j]) = p - 1 THEN g(j) ELSE 0]))]
  IN (IF murky THEN {} ELSE
      C("the policy takes the clipped policy gradient step of the minibatch",
        NearSeq(y.on.l, NewL, Tol)))
     \cup (IF murkyv THEN {} ELSE
      C("values move towards the GAE value targets of the minibatch",
        NearSeq(y.on.v, NewV, Tol)))

\* ---- TRPO
VFStep(c, F, x, y) ==
  LET us == Flat(x.seqs)
      n == Len(us)
      NewV == [p \in 1..Len(x.on.v) |->
                 x.on.v[p] + Rate(c, n, Sum([j \in 1..n |->
                    IF St(c, us[j]) = p - 1 THEN 2 * (F[us[j]].T - V(c, x.on, us[j])) ELSE 0]))]
  IN C("values move towards the GAE value targets of the minibatch",
       NearSeq(y.on.v, NewV, Tol))
     \cup C("fitting the value function leaves the policy alone", y.on.l = x.on.l)
TRPOStep(c, F, ms, x, y, e) ==
  LET us == Flat(x.seqs)
      n == Len(us)
      q == [j \in 1..n |-> <<us[j], F[us[j]].a>>]
      w(j) == Norm(c, ms, F[us[j]].adv)
      G == [p \in 1..Len(x.on.l) |->
              LET z == Cell(c, p)
              IN (8 * (PolSum(c, x.on, q, w, z[1], z[2])
                       + (c.ec * EntSum(c, x.on, q, z[1], z[2])) \div 16)) \div n]
      D == [p \in 1..Len(x.on.l) |-> y.on.l[p] - x.on.l[p]]
      N(st) == Cardinality({j \in 1..n : St(c, us[j]) = st})
      P(st, b) == x.on.p[st * c.A + b + 1]      \* scaled by 16 K
      \* (F + damping) D for the Fisher matrix of the softmax, scaled by 8
      Y == [p \in 1..Len(x.on.l) |->
              LET st == Cell(c, p)[1]
                  b == Cell(c, p)[2]
                  dot == Sum([a \in 1..c.A |-> Mul(P(st, a - 1), D[st * c.A + a])])
                  f == Mul(P(st, b), D[p] - dot \div 16)
              IN (f * N(st)) \div (2 * n) + (8 * D[p]) \div 100]
      Dot(a, b) == Sum([j \in 1..Len(a) |-> Mul(a[j], b[j])])
      gg == Dot(G, G)
      yy == Dot(Y, Y)
      gy == Dot(G, Y)
      dfd == Dot(D, Y)                             \* 1/2 D (F + damping) D, scaled by 16 K
      big == \E p \in 1..Len(G) : Abs(G[p]) > 16 * K \/ Abs(Y[p]) > 16 * K \/ Abs(D[p]) > 16 * K
      murky == (c.std /\ ms[2] = 0) \/ big \/ gg < K \/ gg > 16 * K
      kl == Sum([j \in 1..n |-> e.kls[St(c, us[j]) + 1]]) \div n     \* scaled by 16 K
      zero == \A p \in 1..Len(D) : D[p] = 0
      frac == Mul(e.step, e.step)
      Gain(on) == (Sum([j \in 1..n |-> Mul(w(j), (on.p[St(c, us[j]) * c.A + F[us[j]].a + 1] * K)
                                                 \div F[us[j]].p0)
                                       + (c.ec * on.h[St(c, us[j]) + 1]) \div 16])) \div n
      tiny == \E j \in 1..n : F[us[j]].p0 < 2000
  IN C("a policy step that was not accepted is undone", e.step # 0 \/ zero)
     \cup C("the mean KL divergence of an accepted step is at most max_kl",
            kl <= 16 * c.kl + 8)
     \cup C("the policy step leaves the value function alone", y.on.v = x.on.v)
     \cup (IF e.step <= K \div 16 \/ murky THEN {}
           ELSE C("an accepted step does not lower the surrogate objective",
                  tiny \/ Gain(y.on) >= Gain(x.on) - 16)
                \cup C("the policy step is along the natural gradient of the advantages",
                  /\ gy > 0
                  /\ yy < 16 * K => Mul(gy, gy) >= ((Mul(gg, yy) \div 100) * 97) - 30)
                \cup C("the full step has quadratic divergence max_kl",
                  Near(dfd, Mul(16 * c.kl, frac), 60 + Mul(c.kl, frac) \div 2)))

\* ---- A2C and A3C: one step on the whole segment; f scales (A3C), n averages (A2C)
WholeStep(c, F, x, y, num, den) ==
  LET U == DOMAIN F
      R(z) == ((z \div (den * c.lr[2])) * num * c.lr[1])
              + ((z % (den * c.lr[2])) * num * c.lr[1]) \div (den * c.lr[2])
      ent == c.kind = "a3c"
      PS(st, b) == SumOver({u \in U : St(c, u) = st}, LAMBDA u :
                     Mul(F[u].adv, (IF F[u].a = b THEN K ELSE 0) - x.on.p[st * c.A + b + 1] \div 16))
      ES(st, b) == Cardinality({u \in U : St(c, u) = st}) * x.on.hg[st * c.A + b + 1]
      NewL == [p \in 1..Len(x.on.l) |->
                 LET z == Cell(c, p)
                     pg == (c.pc * PS(z[1], z[2])) \div 2
                     eg == (c.ec * ES(z[1], z[2])) \div 16
                 IN x.on.l[p] + R(pg + (IF ent THEN (c.pc * eg) \div 2 ELSE eg))]
      VS(st) == SumOver({u \in U : St(c, u) = st}, LAMBDA u : F[u].adv)
      \* A2C: mean of squares; A3C: half squares
      NewV == [p \in 1..Len(x.on.v) |->
                 x.on.v[p] + R(IF ent THEN (c.vc * VS(p - 1)) \div 2 ELSE c.vc * VS(p - 1))]
  IN C("the policy follows the policy gradient of the segment's advantages and entropies",
       NearSeq(y.on.l, NewL, Tol))
     \cup C("values move towards the returns of the segment", NearSeq(y.on.v, NewV, Tol))

\* A3C with average rewards: the running average enters return and advantage
RECURSIVE AvgFold(_, _, _, _, _, _)
AvgFold(c, on, seg, R, avg, acc) ==
  IF seg = <<>> THEN [acc |-> acc, avg |-> avg]
  ELSE LET x == Last(seg)
           R2 == Ga(c, R) + x[3] - avg
           ad == R2 - V(c, on, x[1])
       IN AvgFold(c, on, SubSeq(seg, 1, Len(seg) - 1), R2, avg + ad \div 4,
                  acc \cup {[u |-> x[1], a |-> x[2], adv |-> ad]})
A3CFacts(c, on, s, seg) ==
  IF ~c.avg THEN [F |-> Facts(c, on, <<seg>>), avg |-> s.avg]
  ELSE LET x == Last(seg)
           f == AvgFold(c, on, seg, IF x[5] THEN V(c, on, x[4]) ELSE 0, s.avg, {})
       IN [F |-> [u \in {g.u : g \in f.acc} |-> CHOOSE g \in f.acc : g.u = u], avg |-> f.avg]

\* ---- REINFORCE: undiscounted returns
RECURSIVE SufSum(_)
SufSum(seg) == IF seg = <<>> THEN <<>>
               ELSE LET t == SufSum(Tail(seg))
                    IN <<seg[1][3] + (IF t = <<>> THEN 0 ELSE t[1])>> \o t
RFStep(c, segs, x, y) ==
  LET q == Flat(segs)
      R == Flat([j \in 1..Len(segs) |-> SufSum(segs[j])])
      w(j) == R[j]
      NewL == [p \in 1..Len(x.on.l) |->
                 LET z == Cell(c, p)
                 IN x.on.l[p] + Rate(c, c.ui, PolSum(c, x.on, q, w, z[1], z[2])
                                              + (c.ec * EntSum(c, x.on, q, z[1], z[2])) \div 16)]
  IN C("the policy follows the gradient of the undiscounted returns of the batch of episodes",
       NearSeq(y.on.l, NewL, Tol))

\* ------------------------------------------------------------------ collecting
S0State(c) == [mem |-> <<>>, cur |-> [e \in 1..c.n_envs |-> <<>>],
               pend |-> [e \in 1..c.n_envs |-> <<>>], k |-> 0, avg |-> 0,
               last |-> [z |-> 0]]
\* segments with transitions x[e] (or <<>>) appended; closed where stop[e]
RECURSIVE Collect(_, _, _, _)
Collect(s, x, stop, e) ==
  IF e > Len(x) THEN s
  ELSE LET seg == IF x[e] = <<>> THEN s.cur[e] ELSE Append(s.cur[e], x[e])
       IN Collect(IF stop[e] /\ seg # <<>>
                  THEN [s EXCEPT !.mem = Append(@, seg), !.cur[e] = <<>>]
                  ELSE [s EXCEPT !.cur[e] = seg], x, stop, e + 1)
Gathered(c, s, e) ==
  CASE e.op = "step" ->
        Collect(s, <<IF s.pend[1] = <<>> THEN <<>>
                     ELSE <<s.pend[1][1], s.pend[1][2], e.r[1], e.obs[1], TRUE>> >>,
                <<FALSE>>, 1)
    [] e.op = "end" ->
        Collect(s, <<(<<s.pend[1][1], s.pend[1][2], e.r[1], e.obs[1], ~e.done[1]>>)>>, <<TRUE>>, 1)
    [] e.op = "btrain" ->
        LET nd(j) == e.done[j] \/ (c.kind = "a2c" /\ e.reset[j])
        IN Collect(s, [j \in 1..c.n_envs |->
                         <<s.pend[j][1], s.pend[j][2], e.r[j], e.obs[j], ~nd(j)>>],
                   [j \in 1..c.n_envs |-> e.done[j] \/ e.reset[j]], 1)
    [] OTHER -> s
NonEmpty(segs) == SelectSeq(segs, LAMBDA q : q # <<>>)
All(s) == s.mem \o NonEmpty(s.cur)
\* segments an update learns from in this call; <<>>: no update
Learns(c, s, e) ==
  LET g == Gathered(c, s, e) IN
  CASE e.op \notin {"step", "end", "btrain"} -> <<>>
    [] Fam(c) \in {"ppo", "trpo"} -> IF Size(All(g)) >= c.ui THEN All(g) ELSE <<>>
    [] c.kind = "a2c" -> IF s.k + 1 = c.ui THEN All(g) ELSE <<>>
    [] c.kind = "a3c" -> IF e.op = "end" \/ Size(All(g)) >= c.ui THEN All(g) ELSE <<>>
    [] c.kind = "reinforce" ->
         IF e.op = "end" /\ e.done[1] /\ Len(g.mem) = c.ui THEN g.mem ELSE <<>>

\* ------------------------------------------------------------------ clauses
\* P27: the minibatches of an update
Chunks(c, ids, ms) ==
  LET flat == Flat([j \in 1..Len(ms) |-> Flat(ms[j].seqs)])
      n == Len(ids)
      B == c.B
      nb == (c.epochs * n + B - 1) \div B
      full == \A j \in 1..Len(ms) : Len(Flat(ms[j].seqs)) = B
  IN C("minibatches have the configured size", full)
     \cup C("as many minibatches as the epochs take", Len(ms) = nb)
     \cup (IF ~full \/ Len(ms) # nb THEN {}
           ELSE C("every transition since the last update is used once per epoch",
                  /\ \A ep \in 1..c.epochs : SameBag(SubSeq(flat, (ep - 1) * n + 1, ep * n), ids)
                  /\ LET tail == SubSeq(flat, c.epochs * n + 1, Len(flat))
                     IN Distinct(tail) /\ Range(tail) \subseteq Range(ids)))
\* recurrent: ms covers the dataset epoch by epoch
RECURSIVE EpochEnds(_, _, _, _)
EpochEnds(ms, n, j, acc) ==   \* position of the last minibatch of each epoch
  IF j > Len(ms) THEN (IF acc = 0 THEN <<>> ELSE <<(-1)>>)
  ELSE LET a == acc + Len(Flat(ms[j].seqs))
       IN IF a = n THEN <<j>> \o EpochEnds(ms, n, j + 1, 0)
          ELSE IF a > n THEN <<(-1)>>
          ELSE EpochEnds(ms, n, j + 1, a)
SeqChunks(c, segs, ids, ms) ==
  LET n == Len(ids)
      ends == EpochEnds(ms, n, 1, 0)
      ok == Len(ends) = c.epochs /\ \A j \in 1..Len(ends) : ends[j] > 0
      from(j) == IF j = 1 THEN 1 ELSE ends[j - 1] + 1
      Part(j) == SubSeq(ms, from(j), ends[j])
      IdSeg(seg) == [j \in 1..Len(seg) |-> seg[j][1]]
      Within(q) == \E j \in 1..Len(segs) : LET g == IdSeg(segs[j]) IN
                      \E a \in 1..Len(g) : a + Len(q) - 1 <= Len(g)
                                           /\ SubSeq(g, a, a + Len(q) - 1) = q
  IN C("each epoch uses as many transitions as were collected", ok)
     \cup (IF ~ok THEN {}
           ELSE C("every transition since the last update is used once per epoch",
                  \A j \in 1..Len(ends) :
                    SameBag(Flat([m \in 1..Len(Part(j)) |-> Flat(Part(j)[m].seqs)]), ids))
                \cup C("minibatches have the configured size",
                  \A j \in 1..Len(ends) : \A m \in 1..Len(Part(j)) :
                    LET z == Len(Flat(Part(j)[m].seqs))
                    IN IF m < Len(Part(j)) THEN z = c.B ELSE z \in 1..c.B))
     \cup C("sub-sequences are contiguous, within one episode and of bounded length",
            \A j \in 1..Len(ms) : \A m \in 1..Len(ms[j].seqs) :
               LET q == ms[j].seqs[m]
               IN q # <<>> /\ Within(q) /\ (c.maxlen = 0 \/ Len(q) <= c.maxlen))
DataFails(c, s, e, L) ==
  LET ids == Ids(L)
      M == e.micro
      P == SelectSeq(M, LAMBDA m : m.who = "policy")
      W == SelectSeq(M, LAMBDA m : m.who # "policy")
      once(m) == SameBag(Flat(m.seqs), ids)
  IN C("an update happens exactly when enough was collected",
       Fam(c) \in {"a3c", "reinforce"} \/ (M # <<>>) = (L # <<>>))
     \cup C("nothing is learned outside updates", L # <<>> \/ e.on = s.last.on)
     \cup C("the parameters only change within an update",
            L = <<>> \/ M = <<>> \/ M[1].on = s.last.on)
     \cup (IF L = <<>> \/ M = <<>> THEN {}
           ELSE CASE Fam(c) = "ppo" ->
                      IF Recur(c) THEN SeqChunks(c, L, ids, M) ELSE Chunks(c, ids, M)
                  [] Fam(c) = "trpo" ->
                      C("the policy step uses every transition since the last update once",
                        Len(P) = 1 /\ once(P[1]))
                      \cup (IF Recur(c) THEN SeqChunks(c, L, ids, W) ELSE Chunks(c, ids, W))
                  [] c.kind = "a2c" ->
                      C("the update uses every transition since the last one once",
                        Len(M) = 1 /\ once(M[1]))
                  [] OTHER -> {})

\* P26: numbers
ValueFails(c, s, e, L) ==
  IF L = <<>> THEN {}
  ELSE LET M == e.micro
           x0 == s.last
           snaps == M \o <<e>>
       IN CASE Recur(c) -> {}
            [] Fam(c) = "ppo" ->
                 LET F == Facts(c, x0.on, L)
                     ms == IF c.std THEN MeanStd(F) ELSE <<0, K>>
                 IN UNION {IF Big(snaps[j].on) \/ BigV(snaps[j].on)
                              \/ ~(Range(Flat(M[j].seqs)) \subseteq DOMAIN F) THEN {}
                           ELSE PPOStep(c, F, ms, snaps[j], snaps[j + 1]) : j \in 1..Len(M)}
            [] Fam(c) = "trpo" ->
                 LET F == Facts(c, x0.on, L)
                     ms == IF c.std THEN MeanStd(F) ELSE <<0, K>>
                 IN UNION {IF Big(snaps[j].on) \/ BigV(snaps[j].on)
                              \/ ~(Range(Flat(M[j].seqs)) \subseteq DOMAIN F) THEN {}
                           ELSE IF M[j].who = "policy"
                           THEN TRPOStep(c, F, ms, snaps[j], snaps[j + 1], e)
                           ELSE VFStep(c, F, snaps[j], snaps[j + 1]) : j \in 1..Len(M)}
            [] c.kind = "a2c" ->
                 IF Big(x0.on) \/ BigV(x0.on) THEN {}
                 ELSE WholeStep(c, Facts(c, x0.on, L), x0, e, 1, c.ui * c.n_envs)
            [] c.kind = "a3c" ->
                 LET seg == Last(L)
                     n == Len(seg)
                     num == IF c.keep /\ n < c.ui THEN c.ui ELSE 1
                     den == (IF c.keep /\ n < c.ui THEN n ELSE 1) * (IF c.norm THEN n ELSE 1)
                 IN IF Big(x0.on) \/ BigV(x0.on) THEN {}
                    ELSE WholeStep(c, A3CFacts(c, x0.on, s, seg).F, x0, e, num, den)
            [] OTHER -> IF Big(x0.on) THEN {} ELSE RFStep(c, L, x0, e)

OFails(c, s, e) ==
  IF e.raised THEN {"the call succeeds"}
  ELSE IF e.op = "init" THEN {}
  ELSE LET L == Learns(c, s, e)
       IN (IF c.check = "P27" THEN DataFails(c, s, e, L) ELSE {})
          \cup (IF c.check = "P26" \/ c.kind \in {"a3c", "reinforce"}
                THEN ValueFails(c, s, e, L) ELSE {})
          \cup C("the local model is the shared one after every update",
                 c.kind # "a3c" \/ e.loc = e.on)
OPost(c, s, e) ==
  LET g == Gathered(c, s, e)
      L == Learns(c, s, e)
      clear == L # <<>>
      throw == c.kind = "reinforce" /\ e.op = "end" /\ ~e.done[1]
      g2 == IF throw THEN [g EXCEPT !.mem = SubSeq(@, 1, Len(@) - 1)] ELSE g
      on == s.last
  IN [g2 EXCEPT
       !.mem = IF clear THEN <<>> ELSE @,
       !.cur = IF clear THEN [j \in 1..c.n_envs |-> <<>>] ELSE @,
       !.k = IF e.op = "btrain" THEN (IF clear THEN 0 ELSE @ + 1) ELSE @,
       !.avg = IF clear /\ c.kind = "a3c" /\ c.avg
               THEN A3CFacts(c, on.on, s, Last(L)).avg ELSE @,
       !.last = e,
       !.pend = CASE e.op = "step" -> <<(<<e.obs[1], e.act[1]>>)>>
                  [] e.op = "end" -> <<(<<>>)>>
                  [] e.op = "bact" -> [j \in 1..c.n_envs |-> <<e.obs[j], e.act[j]>>]
                  [] e.op = "btrain" -> [j \in 1..c.n_envs |-> <<>>]
                  [] OTHER -> @]
=====================================================================================
