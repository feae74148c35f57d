--------------------------------- MODULE AsyncLearn ---------------------------------
(* Asynchronous agents (NSQ, PCL, ACER): workers with local models learn from        *)
(* segments of their own experience and from replayed episodes, and write to shared  *)
(* parameters.  Which segments are learned, when, what an update does to tabular     *)
(* models, and how shared, local and target / average parameters follow.             *)
(* Reals are integers scaled by K; probabilities by 16 K.                            *)
(* A parameter snapshot X is a record of tables over (state, action) or state:       *)
(*   l logits (acerc: means), p probabilities, lp log-probabilities, hg gradient of  *)
(*   the entropy, v values, q action values, w slopes of the advantage.              *)
(* A transition is [u, a, r, u2, nt, av, mu]: observation ids, action, reward,       *)
(* whether it is not terminal, average-policy probabilities and behaviour policy     *)
(* when it was taken.                                                                *)
(* s: sh, av        shared parameters, target / average parameters                   *)
(*    lo[w]         local parameters of worker w                                     *)
(*    seg[w]        transitions since the worker's last update                       *)
(*    pend[w]       <<>> or <<[u, a, av, mu]>>: what it acted on                     *)
(*    batch[w]      PCL: segments whose losses wait for the batch to fill            *)
(*    cur[w]/eps[w] replay buffer: episode in progress, finished episodes            *)
(*    t[w], tg      steps of the worker, of all workers                              *)
EXTENDS Util

K == 8192
Mul(a, b) == (a \div K) * b + ((a % K) * b) \div K
Near(a, b, tol) == Abs(a - b) <= tol
NearSeq(x, y, tol) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : Near(x[j], y[j], tol)
Frac(x, n, d) == (x \div d) * n + ((x % d) * n) \div d
RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) ==   \* lo^2 <= n < hi^2
  IF hi - lo <= 1 THEN lo
  ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Isqrt(n, m, hi) ELSE Isqrt(n, lo, m)
RECURSIVE Pw(_, _, _)
Pw(c, n, x) == IF n = 0 THEN x ELSE Pw(c, n - 1, Frac(x, c.g[1], c.g[2]))
Ga(c, x) == Pw(c, 1, x)
Tol == 40

St(c, u) == c.tab[u]
Ix(c, st, b) == st * c.A + b + 1
Cell(c, x) == <<(x - 1) \div c.A, (x - 1) % c.A>>
Lr(c, x) == Frac(x, c.lr[1], c.lr[2])
Row(c, tab, st) == [b \in 1..c.A |-> tab[Ix(c, st, b - 1)]]
MaxOf(q) == CHOOSE m \in Range(q) : \A z \in Range(q) : z <= m
Clip1(x) == Max2(-K, Min2(K, x))
Sums(c, n, f(_)) == Sum([j \in 1..n |-> f(j)])

\* ------------------------------------------------------------------ NSQ
\* n-step returns, last first
RECURSIVE RetsRev(_, _, _)
RetsRev(c, seg, R) ==
  IF seg = <<>> THEN <<>>
  ELSE LET R2 == Ga(c, R) + Last(seg).r
       IN <<R2>> \o RetsRev(c, SubSeq(seg, 1, Len(seg) - 1), R2)
NSQStep(c, X, target, seg) ==
  LET z == Last(seg)
      R == Rev(RetsRev(c, seg, IF z.nt THEN MaxOf(Row(c, target.q, St(c, z.u2))) ELSE 0))
      G(p) == Sum([j \in 1..Len(seg) |->
                     IF Ix(c, St(c, seg[j].u), seg[j].a) = p THEN Clip1(R[j] - X.q[p]) ELSE 0])
  IN [q |-> [p \in 1..Len(X.q) |-> Lr(c, G(p))]]

\* ------------------------------------------------------------------ PCL
\* path inconsistencies of a segment: <<C, first, length>> for each start
Val(c, X, u) == X.v[St(c, u) + 1]
Paths(c, X, seg) ==
  LET n == Len(seg) IN
  [t \in 1..n |->
     LET d == Min2(n - t + 1, c.rl)
         z == seg[t + d - 1]
         R == Sum([i \in 1..d |-> Pw(c, i - 1, seg[t + i - 1].r)])
         G == Sum([i \in 1..d |-> Pw(c, i - 1, X.lp[Ix(c, St(c, seg[t + i - 1].u), seg[t + i - 1].a)])])
     IN <<R - Val(c, X, seg[t].u) + (IF z.nt THEN Pw(c, d, Val(c, X, z.u2)) ELSE 0)
            - (c.tau * G) \div 16, d>>]
\* change of logits and values for one segment, before learning rate and batch size
PCLSeg(c, X, seg) ==
  LET P == Paths(c, X, seg)
      n == Len(seg)
      den == 2 * (IF c.norm THEN n ELSE 1)
      DL(st, b) == Sum([t \in 1..n |-> Mul(P[t][1],
                     Sum([i \in 1..P[t][2] |->
                       LET x == seg[t + i - 1] IN
                       IF St(c, x.u) # st THEN 0
                       ELSE Pw(c, i - 1, (IF x.a = b THEN K ELSE 0) - X.p[Ix(c, st, b)] \div 16)]))])
      DV(st) == Sum([t \in 1..n |->
                  LET z == seg[t + P[t][2] - 1] IN
                  (IF St(c, seg[t].u) = st THEN P[t][1] ELSE 0)
                  - (IF c.bfv /\ z.nt /\ St(c, z.u2) = st THEN Pw(c, P[t][2], P[t][1]) ELSE 0)])
  IN [l |-> [p \in 1..Len(X.l) |-> Frac(DL(Cell(c, p)[1], Cell(c, p)[2]), c.pc, den)],
      v |-> [p \in 1..Len(X.v) |-> Frac(DV(p - 1), c.vc, den)]]
PCLStep(c, X, segs, wts) ==
  LET D == [j \in 1..Len(segs) |-> PCLSeg(c, X, segs[j])]
  IN [l |-> [p \in 1..Len(X.l) |->
               Lr(c, Sum([j \in 1..Len(segs) |-> Mul(D[j].l[p], wts[j])]) \div c.B)],
      v |-> [p \in 1..Len(X.v) |->
               Lr(c, Sum([j \in 1..Len(segs) |-> Mul(D[j].v[p], wts[j])]) \div c.B)]]
Ones(n) == [j \in 1..n |-> K]

\* ------------------------------------------------------------------ ACER
\* discrete actions. off: replayed, with behaviour policies and average policy av
VD(c, X, u) == Sum([b \in 1..c.A |-> Mul(X.q[Ix(c, St(c, u), b - 1)], X.p[Ix(c, St(c, u), b - 1)])]) \div 16
\* x scaled by K, y by 16 K: sum of products scaled by 16 K
Ratio(p, mu) == (p * K) \div Max2(2000, mu)     \* below 4000: murky
\* gradient of the policy loss w.r.t. the logits; murky when it cannot be followed
ACERPol(c, X, x, adv, off, avg) ==
  LET st == St(c, x.u)
      A == 1..c.A
      p == [b \in A |-> X.p[Ix(c, st, b - 1)]]          \* 16 K
      q == [b \in A |-> X.q[Ix(c, st, b - 1)]]
      v == VD(c, X, x.u)
      rho == IF off THEN Ratio(p[x.a + 1], x.mu[x.a + 1]) ELSE K
      W == IF off /\ c.trunc > 0 THEN Min2(rho, c.trunc) ELSE rho
      wa == Mul(W, adv)
      \* bias correction: weight max(0, 1 - c mu / pi) of every action under pi
      cw == [b \in A |-> IF off /\ c.trunc > 0
                         THEN Mul(Max2(0, p[b] - Mul(c.trunc, x.mu[b])), q[b] - v) \div 16 ELSE 0]
      sw == wa + Sum(cw)
      g == [b \in A |-> Mul(sw, p[b]) \div 16 - cw[b] - (IF b = x.a + 1 THEN wa ELSE 0)]
      k == [b \in A |-> avg[b] - p[b]]                  \* 16 K
      kk == Sum([b \in A |-> ((k[b] \div 4) * (k[b] \div 4)) \div K])     \* 16 K
      kg == Sum([b \in A |-> Mul(g[b], k[b])])                            \* 16 K
      num == kg - 16 * c.delta
      f == 4 * ((num \div kk) * (K \div 4) + ((num % kk) * (K \div 4)) \div kk)
      z == IF ~c.tr \/ kk < 600 \/ num <= 0 THEN g
           ELSE [b \in A |-> g[b] - Mul(f, k[b]) \div 16]
  IN [d |-> [b \in A |-> Frac(X.hg[Ix(c, st, b - 1)], c.ec, 16) - z[b]],
      murky |-> \/ off /\ (x.mu[x.a + 1] < 4000 \/ \E b \in A : x.mu[b] < 200)
                \/ \E b \in A : Abs(g[b]) > 60 * K
                \/ c.tr /\ kk < 600 /\ num > -200]
RECURSIVE ACERFold(_, _, _, _, _, _, _, _)
\* acc: <<policy moves, value moves, murky>> with entries <<state, vector>> / <<cell, x>>
ACERFold(c, X, av, seg, off, Qr, Qo, acc) ==
  IF seg = <<>> THEN acc
  ELSE LET x == Last(seg)
           st == St(c, x.u)
           cell == Ix(c, st, x.a)
           v == VD(c, X, x.u)
           Q == X.q[cell]
           qr == x.r + Ga(c, Qr)
           qo == x.r + Ga(c, Qo)
           rho == IF off THEN Ratio(X.p[cell], x.mu[x.a + 1]) ELSE K
           tr == Min2(K, rho)
           avg == IF off THEN Row(c, av.p, st) ELSE x.av
           P == ACERPol(c, X, x, (IF c.opc THEN qo ELSE qr) - v, off, avg)
       IN ACERFold(c, X, av, SubSeq(seg, 1, Len(seg) - 1), off,
                   Mul(qr - Q, tr) + v, qo - Q + v,
                   [pol |-> Append(acc.pol, <<st, P.d>>), val |-> Append(acc.val, <<cell, qr - Q>>),
                    murky |-> acc.murky \/ P.murky \/ Abs(qo) > 60 * K])
ACERStep(c, X, av, seg, off) ==
  LET z == Last(seg)
      R == IF z.nt THEN VD(c, X, z.u2) ELSE 0
      f == ACERFold(c, X, av, seg, off, R, R, [pol |-> <<>>, val |-> <<>>, murky |-> FALSE])
      den == 2 * (IF c.norm THEN Len(seg) ELSE 1)
      L(p) == Sum([j \in 1..Len(f.pol) |-> IF f.pol[j][1] # Cell(c, p)[1] THEN 0
                                           ELSE f.pol[j][2][Cell(c, p)[2] + 1]])
      Q(p) == Sum([j \in 1..Len(f.val) |-> IF f.val[j][1] = p THEN f.val[j][2] ELSE 0])
  IN [l |-> IF f.murky THEN <<>> ELSE [p \in 1..Len(X.l) |-> Lr(c, Frac(L(p), c.pc, den))],
      q |-> [p \in 1..Len(X.q) |-> Lr(c, Frac(Q(p), c.vc, den))]]
\* continuous actions (c.A components, variance 1/4): mean l, value v, Q = v + w . a
QC(c, X, u, a) == Val(c, X, u) + Sum([b \in 1..c.A |-> Mul(X.w[Ix(c, St(c, u), b - 1)], a[b])])
RECURSIVE ACERCFold(_, _, _, _, _, _, _)
ACERCFold(c, X, seg, off, Qr, Qo, acc) ==
  IF seg = <<>> THEN acc
  ELSE LET x == Last(seg)
           st == St(c, x.u)
           v == Val(c, X, x.u)
           Q == QC(c, X, x.u, x.a)
           qr == x.r + Ga(c, Qr)
           qo == x.r + Ga(c, Qo)
           rho == IF off THEN x.rho ELSE K
           \* far from the behaviour policy the truncation also acts on resampled actions
           far == Sum([b \in 1..c.A |-> LET d == (X.l[Ix(c, st, b - 1)] - x.mu[b]) \div 16 IN d * d])
           big == rho > 4 * K \/ (off /\ c.trunc > 0 /\ far > 180000)
           trc == IF big THEN K ELSE Min2(K, Isqrt(rho * K, 0, 46340))   \* rho^(1/2): 2 components
           wa == Mul((IF c.opc THEN qo ELSE qr) - v, rho)
       IN ACERCFold(c, X, SubSeq(seg, 1, Len(seg) - 1), off,
                    Mul(qr - Q, trc) + v, qo - Q + v,
                    [pol |-> Append(acc.pol, <<st, [b \in 1..c.A |-> Mul(wa, 4 * (x.a[b] - X.l[Ix(c, st, b - 1)]))]>>),
                     val |-> Append(acc.val, <<st, qr - Q, x.a, Mul(qr - Q, Min2(K, rho))>>),
                     murky |-> acc.murky \/ big \/ Abs(qo) > 60 * K \/ Abs(wa) > 60 * K])
ACERCStep(c, X, seg, off) ==
  LET z == Last(seg)
      R == IF z.nt THEN Val(c, X, z.u2) ELSE 0
      f == ACERCFold(c, X, seg, off, R, R, [pol |-> <<>>, val |-> <<>>, murky |-> FALSE])
      den == 2 * (IF c.norm THEN Len(seg) ELSE 1)
      L(p) == Sum([j \in 1..Len(f.pol) |-> IF f.pol[j][1] # Cell(c, p)[1] THEN 0
                                           ELSE f.pol[j][2][Cell(c, p)[2] + 1]])
      W(p) == Sum([j \in 1..Len(f.val) |-> IF f.val[j][1] # Cell(c, p)[1] THEN 0
                                           ELSE Mul(f.val[j][2], f.val[j][3][Cell(c, p)[2] + 1])])
      V(p) == Sum([j \in 1..Len(f.val) |-> IF f.val[j][1] # p - 1 THEN 0
                                           ELSE f.val[j][2] + f.val[j][4]])
  IN [l |-> IF f.murky THEN <<>> ELSE [p \in 1..Len(X.l) |-> Lr(c, Frac(L(p), c.pc, den))],
      w |-> IF f.murky THEN <<>> ELSE [p \in 1..Len(X.w) |-> Lr(c, Frac(W(p), c.vc, den))],
      v |-> IF f.murky THEN <<>> ELSE [p \in 1..Len(X.v) |-> Lr(c, Frac(V(p), c.vc, den))]]

\* ------------------------------------------------------------------ an update
Big(X) == \E f \in DOMAIN X : f \in {"l", "v", "q", "w"} /\ \E j \in 1..Len(X[f]) : Abs(X[f][j]) > 8 * K
\* predicted change; segs: the segments of the batch, wts: their weights
Change(c, X, av, segs, wts, off) ==
  CASE c.kind = "nsq" -> NSQStep(c, X, av, segs[1])
    [] c.kind = "pcl" -> PCLStep(c, X, segs, wts)
    [] c.kind = "acer" -> ACERStep(c, X, av, segs[1], off)
    [] OTHER -> ACERCStep(c, X, segs[1], off)
What(f) == CASE f = "l" -> "policy parameters" [] f = "w" -> "advantage parameters"
             [] OTHER -> "value parameters"
Moved(c, X, x, y, D, how) ==
  IF Big(X) THEN {}
  ELSE UNION {IF D[f] = <<>> THEN {}
              ELSE C(how \o ": the " \o What(f) \o " take exactly the step the algorithm defines",
                     NearSeq(y[f], [p \in 1..Len(x[f]) |-> x[f][p] + D[f][p]], Tol)) : f \in DOMAIN D}
Same(x, y) == \A f \in DOMAIN x : x[f] = y[f]
\* soft copy of the average model
Soft(c, av, lo) ==
  UNION {IF f \notin {"l", "v", "q", "w"} THEN {}
         ELSE {<<f, [p \in 1..Len(av[f]) |-> av[f][p] + Frac(lo[f][p] - av[f][p], c.al[2] - c.al[1], c.al[2])]>>}
         : f \in DOMAIN av}
\* values beyond 24 K are not recorded
SoftOk(c, av, lo, av2) ==
  \A g \in Soft(c, av, lo) : \A j \in 1..Len(g[2]) :
     \/ Abs(av[g[1]][j]) > 23 * K \/ Abs(lo[g[1]][j]) > 23 * K
     \/ Near(av2[g[1]][j], g[2][j], 4)
\* x, y: [sh, lo, av] before and after; one update
UpdateFails(c, x, y, segs, wts, off, how) ==
  Moved(c, x.lo, x.sh, y.sh, Change(c, x.lo, x.av, segs, wts, off), how)
  \cup C("after an update the local model equals the shared one", Same(y.lo, y.sh))
  \cup (IF c.kind \in {"acer", "acerc"}
        THEN C("every update moves the average model towards the model by 1 - alpha",
               SoftOk(c, x.av, y.lo, y.av)) ELSE {})
NoUpdateFails(c, x, y) ==
  C("parameters only change in updates", Same(x.sh, y.sh) /\ Same(x.lo, y.lo))
  \cup (IF c.kind = "nsq" THEN {}
        ELSE C("the average model only changes in updates", Same(x.av, y.av)))

\* ------------------------------------------------------------------ a call
S0State(c) == [sh |-> [z |-> 0], av |-> [z |-> 0], lo |-> <<>>,
               seg |-> [w \in 1..c.W |-> <<>>], pend |-> [w \in 1..c.W |-> <<>>],
               batch |-> [w \in 1..c.W |-> <<>>], cur |-> [w \in 1..c.W |-> <<>>],
               eps |-> [w \in 1..c.W |-> <<>>], t |-> [w \in 1..c.W |-> 0], tg |-> 0]
Has(c, e, s) == s.pend[e.w] # <<>>
Tr(c, s, e, nt) == LET z == s.pend[e.w][1]
                   IN [u |-> z.u, a |-> z.a, r |-> e.r, u2 |-> e.obs, nt |-> nt, av |-> z.av, mu |-> z.mu]
\* the segment with the transition this call completes
Seg(c, s, e) ==
  IF e.op = "step" /\ Has(c, e, s) THEN Append(s.seg[e.w], Tr(c, s, e, TRUE))
  ELSE IF e.op = "end" THEN Append(s.seg[e.w], Tr(c, s, e, ~e.done))
  ELSE s.seg[e.w]
Flushed(c, s, e) == \/ e.op = "end"
                    \/ e.op = "step" /\ c.tmax > 0 /\ Len(Seg(c, s, e)) = c.tmax
Batch(c, s, e) == IF Flushed(c, s, e) /\ ~c.dis THEN Append(s.batch[e.w], Seg(c, s, e)) ELSE s.batch[e.w]
Online(c, s, e) == Flushed(c, s, e) /\ ~c.dis /\ Len(Batch(c, s, e)) = c.B1
RECURSIVE Total(_)
Total(q) == IF q = <<>> THEN 0 ELSE Len(q[1]) + Total(Tail(q))
Replays(c, s, e) ==
  IF ~Flushed(c, s, e) \/ c.buf = "none" THEN 0
  ELSE IF ~(Online(c, s, e) \/ c.dis) THEN 0
  ELSE IF Total(s.eps[e.w]) < c.rss \/ Len(s.eps[e.w]) < c.B THEN 0
  ELSE c.nrep

\* replayed sub-episodes: as in the buffer
SameTr(c, z, y) == /\ z.u = y.u /\ z.u2 = y.u2 /\ z.nt = y.nt /\ z.r = y.r /\ z.a = y.a
                   /\ NearSeq(z.mu, y.mu, 2)
Want(c, n) == IF c.tmax > 0 THEN Min2(n, c.tmax) ELSE n
FromEp(c, q, ep) == /\ Len(q) = Want(c, Len(ep))
                    /\ \E k \in 0..(Len(ep) - Len(q)) : \A j \in 1..Len(q) : SameTr(c, q[j], ep[k + j])
EpOf(c, q, eps) == {j \in 1..Len(eps) : FromEp(c, q, eps[j])}
SampleFails(c, s, e, m) ==
  C("a replay uses the configured number of episodes", Len(m.eps) = c.B)
  \cup C("replayed episodes are parts, at most t_max long, of distinct stored episodes",
         /\ \A j \in 1..Len(m.eps) : EpOf(c, m.eps[j], s.eps[e.w]) # {}
         /\ \A j, h \in 1..Len(m.eps) : j # h =>
               EpOf(c, m.eps[j], s.eps[e.w]) # EpOf(c, m.eps[h], s.eps[e.w]))
Snap(z, w) == [sh |-> z.sh, lo |-> z.lo[w], av |-> z.av]
TrainFails(c, s, e) ==
  LET M == e.micro
      on == Online(c, s, e)
      pre == Snap(s, e.w)
      post == Snap(e, e.w)
      At(j) == IF j > Len(M) THEN post ELSE Snap(M[j], e.w)
  IN IF Len(M) # Replays(c, s, e)
     THEN {"after each on-policy update, n_times_replay replays if the buffer holds enough"}
     ELSE (IF on THEN UpdateFails(c, pre, At(1), Batch(c, s, e), Ones(c.B1), FALSE, "online")
           ELSE NoUpdateFails(c, pre, At(1)))
          \cup UNION {LET f == SampleFails(c, s, e, M[j]) IN
                      IF f # {} THEN f
                      ELSE UpdateFails(c, At(j), At(j + 1), M[j].eps, M[j].wts, TRUE, "replay")
                      : j \in 1..Len(M)}
TargetFails(c, s, e) ==
  IF c.kind # "nsq" THEN {}
  ELSE IF e.op = "step" /\ (s.tg + 1) % c.it = 0
  THEN C("every i_target global steps the target becomes a copy of the Q function",
         Same(e.av, e.lo[e.w]) \/ Same(e.av, e.sh))
  ELSE C("the target changes only every i_target global steps", Same(e.av, s.av))
Argmax(q) == {b \in 1..Len(q) : q[b] = MaxOf(q)}
\* near-ties are not decided
Greedy(c, tab, u, a) == LET q == Row(c, tab, St(c, u)) IN q[a + 1] + 3 >= MaxOf(q)
ActFails(c, s, e) ==
  IF e.op = "step" /\ c.expl
  THEN C("the explorer is consulted once per step, with the step count and a greedy action",
         /\ Len(e.asked) = 1
         /\ e.asked[1][1] = (IF c.kind = "nsq" THEN s.tg ELSE s.t[e.w])
         /\ c.kind = "nsq" => Greedy(c, e.lo[e.w].q, e.obs, e.asked[1][2]))
       \cup C("the explorer's action is taken", Len(e.asked) # 1 \/ e.act = e.asked[1][3])
  ELSE IF e.op = "eval" /\ c.kind = "nsq"
  THEN C("acting outside training is greedy", Greedy(c, e.lo[e.w].q, e.obs, e.act))
  ELSE IF e.op = "eval" /\ c.det
  THEN C("acting deterministically takes the most probable action",
         IF c.kind = "acerc"
         THEN \A b \in 1..c.A : Near(e.act[b], e.lo[e.w].l[Ix(c, St(c, e.obs), b - 1)], 2)
         ELSE Greedy(c, e.lo[e.w].l, e.obs, e.act))
  ELSE {}
AFails(c, s, e) ==
  IF e.raised THEN {"the call succeeds"}
  ELSE IF e.op = "init"
  THEN C("all models start equal", (c.kind = "pcl" \/ Same(e.av, e.sh)) /\ \A w \in 1..c.W : Same(e.lo[w], e.sh))
  ELSE TrainFails(c, s, e) \cup TargetFails(c, s, e) \cup ActFails(c, s, e)
       \cup C("other workers' local models are left alone",
              \A w \in 1..c.W : w = e.w \/ Same(e.lo[w], s.lo[w]))
       \cup C("the global step count counts the training steps of all workers",
              c.kind # "nsq" \/ e.tg = s.tg + (IF e.op = "step" THEN 1 ELSE 0))
APost(c, s, e) ==
  LET w == e.w
      full == Flushed(c, s, e)
      x == IF Has(c, e, s) /\ e.op = "step" THEN <<Tr(c, s, e, TRUE)>>
           ELSE IF e.op = "end" THEN <<Tr(c, s, e, ~e.done)>> ELSE <<>>
      cur == s.cur[w] \o x
      upd == [s EXCEPT !.sh = e.sh, !.av = e.av, !.lo = e.lo]
  IN IF e.op = "init" THEN upd
     ELSE [upd EXCEPT
       !.seg[w] = IF full THEN <<>> ELSE Seg(c, s, e),
       !.batch[w] = IF Online(c, s, e) THEN <<>> ELSE Batch(c, s, e),
       !.cur[w] = IF e.op = "end" THEN <<>> ELSE cur,
       !.eps[w] = IF e.op = "end" /\ c.buf # "none" THEN Append(@, cur) ELSE @,
       !.pend[w] = CASE e.op = "step" -> <<[u |-> e.obs, a |-> e.act, av |-> e.avp, mu |-> e.mup]>>
                     [] e.op = "end" -> <<>>
                     [] OTHER -> @,
       !.t[w] = IF e.op = "step" THEN @ + 1 ELSE @,
       !.tg = IF e.op = "step" THEN @ + 1 ELSE @]
=====================================================================================
