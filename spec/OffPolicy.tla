--------------------------------- MODULE OffPolicy ---------------------------------
(* Replay-based agents (DQN family, DDPG, TD3, SAC): what they store, when they    *)
(* update and synchronize, and what an update does to tabular value functions.     *)
(* Reals are integers scaled by K.                                                 *)
(* s: buf    replay buffer (ReplayBuffer.tla), windows of <<o, a, r, o2, terminal>>*)
(*    pend   per env the observation acted on and the action, <<>> if none         *)
(*    t      training steps so far      upd  updates so far                        *)
(*    on, tg parameters of the online and target networks                          *)
(*    ph     "idle" or what the current call may still do: [due, left, syncon]     *)
EXTENDS ReplayBuffer

K == 8192
\* a * b of two scaled reals
Mul(a, b) == (a \div K) * b + ((a % K) * b) \div K
Near(a, b, tol) == Abs(a - b) <= tol
NearSeq(x, y, tol) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : Near(x[j], y[j], tol)
NearParams(p, q, tol) == DOMAIN p = DOMAIN q /\ \A n \in DOMAIN p : NearSeq(p[n], q[n], tol)

\* ------------------------------------------------------------------ configuration
Discrete(c) == c.kind \notin {"ddpg", "td3", "sac", "pgt"}
\* single mode: DQN-like agents number steps from 0 and update before acting
ZeroBased(c) == Discrete(c) /\ c.mode = "single"
HasTarget(c) == c.kind # "residual"
\* scheduled syncs (SAC and TD3 synchronize as part of updates)
Scheduled(c, tau) == c.kind \notin {"residual", "sac", "td3"} /\ tau % c.ti = 0
NTimes(c) == IF c.kind = "sac" THEN 1 ELSE c.times
Due(c, buf, tau) == IF Len(buf.mem) >= c.start /\ tau % c.ui = 0 THEN NTimes(c) ELSE 0

\* ------------------------------------------------------------------ target networks
Soft(c, x, y) == Mul(x, K - (c.tau[1] * K) \div c.tau[2]) + Mul(y, (c.tau[1] * K) \div c.tau[2])
IsSoft(c) == c.kind \in {"sac", "td3"} \/ c.sync = "soft"
SyncP(c, tg, on) ==
  [n \in DOMAIN tg |-> [j \in 1..Len(tg[n]) |->
     IF IsSoft(c) THEN Soft(c, tg[n][j], on[n][j]) ELSE on[n][j]]]
Tol(c) == IF IsSoft(c) THEN 3 ELSE 0
\* derived tables (probabilities, log-sum-exp) are functions of the parameters
Real(p) == [n \in DOMAIN p \ {"probs", "lop"} |-> p[n]]
SameTg(c, x, y, tol) == NearParams(Real(x), Real(y), tol)
Synced(c, now, tg, on) == SameTg(c, now, SyncP(c, Real(tg), on), Tol(c))

\* ------------------------------------------------------------------ value updates
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x
ArgmaxN(c, tab, s) == CHOOSE a \in 0..(c.A - 1) : \A b \in 0..(c.A - 1) :
                         tab[s * c.A + b + 1] <= tab[s * c.A + a + 1]
QAt(c, tab, s, a) == tab[s * c.A + a + 1]
MaxQ(c, tab, s) == QAt(c, tab, s, ArgmaxN(c, tab, s))
\* two actions are too close to tell which is greedy
TieAt(c, tab, s) == \E a \in 0..(c.A - 1) : a # ArgmaxN(c, tab, s)
                      /\ Abs(MaxQ(c, tab, s) - QAt(c, tab, s, a)) < 40

RECURSIVE Pow(_, _)
Pow(c, n) == IF n = 0 THEN K ELSE (Pow(c, n - 1) * c.g[1]) \div c.g[2]
WDone(w) == \E j \in 1..Len(w) : w[j][5]
WRet(c, w) == Sum([j \in 1..Len(w) |-> Mul(w[j][3], Pow(c, j - 1))])
\* what is left of the bootstrap value
WDisc(c, w) == IF WDone(w) THEN 0 ELSE Pow(c, Len(w))
St(c, u) == c.tab[u]
WS(c, w) == St(c, w[1][1])
WA(w) == w[1][2]
WS2(c, w) == St(c, w[Len(w)][4])
Alpha == (3 * K) \div 4

Boot(c, on, tg, w) ==
  LET s2 == WS2(c, w) IN
  CASE c.kind \in {"double", "dpal", "diqn"} -> QAt(c, tg.q_w, s2, ArgmaxN(c, on.q_w, s2))
    [] c.kind = "sarsa" -> QAt(c, tg.q_w, s2, (ArgmaxN(c, tg.q_w, s2) + 1) % c.A)
    [] c.kind = "residual" -> MaxQ(c, on.q_w, s2)
    [] c.kind \in {"dpp", "dppl"} -> tg.lop[s2 + 1]
    [] OTHER -> MaxQ(c, tg.q_w, s2)
AdvQ(c, tab, s, a) == QAt(c, tab, s, a) - MaxQ(c, tab, s)
Target(c, on, tg, w) ==
  LET y == WRet(c, w) + Mul(WDisc(c, w), Boot(c, on, tg, w))
      s == WS(c, w)
      a == WA(w)
  IN CASE c.kind = "al" -> y + Mul(Alpha, AdvQ(c, tg.q_w, s, a))
       [] c.kind \in {"pal", "dpal"} ->
            y + Mul(Alpha, Max2(AdvQ(c, tg.q_w, s, a), AdvQ(c, tg.q_w, WS2(c, w), a)))
       [] c.kind = "dppg" -> y + QAt(c, tg.q_w, s, a) - MaxQ(c, tg.q_w, s)
       [] c.kind \in {"dpp", "dppl"} -> y + QAt(c, tg.q_w, s, a) - tg.lop[s + 1]
       [] OTHER -> y
Delta(c, on, tg, w) == Target(c, on, tg, w) - QAt(c, on.q_w, WS(c, w), WA(w))
ClipD(c, d) == IF ~c.clip THEN d ELSE IF d > K THEN K ELSE IF d < -K THEN -K ELSE d
\* learning rate over the batch
Rate(c, x) == (c.lr[1] * x) \div (c.lr[2] * (IF c.acc = "mean" THEN c.B ELSE 1))
Ambiguous(c, on, tg, w) ==
  \/ c.kind \in {"double", "dpal", "residual", "catd", "diqn"} /\ TieAt(c, on.q_w, WS2(c, w))
  \/ c.kind = "sarsa" /\ TieAt(c, tg.q_w, WS2(c, w))

\* quantile regression: over-estimates weigh tau, under-estimates 1 - tau
IsQuantile(c) == c.kind \in {"iqn", "diqn"}
Huber(d) == IF Abs(d) <= K THEN Mul(d, d) \div 2 ELSE Abs(d) - K \div 2
MoveOf(c, on, tg, m, j) ==
  LET d == Delta(c, on, tg, m.items[j])
  IN IF IsQuantile(c)
     THEN Mul(ClipD([clip |-> TRUE], d), IF d > 0 THEN K - m.tau[j] ELSE m.tau[j])
     ELSE ClipD(c, d)
Reported(c, on, tg, m, j) ==
  LET d == Delta(c, on, tg, m.items[j])
  IN IF IsQuantile(c) THEN Mul(Huber(d), IF d > 0 THEN K - m.tau[j] ELSE m.tau[j]) ELSE Abs(d)
NewQ(c, on, tg, m) ==
  LET D == [j \in 1..Len(m.items) |-> MoveOf(c, on, tg, m, j)]
      G == [j \in 1..Len(m.items) |-> Rate(c, Mul(m.w[j], D[j]))]
      Cell(j) == WS(c, m.items[j]) * c.A + WA(m.items[j]) + 1
      \* residual gradients also flow into the bootstrap value
      Cell2(j) == LET s2 == WS2(c, m.items[j]) IN s2 * c.A + ArgmaxN(c, on.q_w, s2) + 1
      G2(j) == -Mul(Mul(WDisc(c, m.items[j]), G[j]), K \div 2)
  IN [x \in 1..Len(on.q_w) |->
        on.q_w[x] + Sum([j \in 1..Len(m.items) |->
                           (IF Cell(j) = x THEN G[j] ELSE 0)
                           + (IF c.kind = "residual" /\ Cell2(j) = x THEN G2(j) ELSE 0)])]

\* ---- categorical: atoms -2..2, probabilities per state, action, atom
NAtoms == 5
PAt(c, p, s, a, z) == p.probs[(s * c.A + a) * NAtoms + z]
EQ(c, p, s, a) == Sum([z \in 1..NAtoms |-> PAt(c, p, s, a, z) * (z - 3)])
EQTab(c, p) == [x \in 1..(c.S * c.A) |-> EQ(c, p, (x - 1) \div c.A, (x - 1) % c.A)]
\* probability mass that an atom at y (scaled, from the lowest) gives to atom z
Mass(y, z) ==
  LET b0 == y + 2 * K
      b == IF b0 < 0 THEN 0 ELSE IF b0 > 4 * K THEN 4 * K ELSE b0
      d == Abs(b - (z - 1) * K)
  IN IF d >= K THEN 0 ELSE K - d
ProjT(c, on, tg, w) ==
  LET s2 == WS2(c, w)
      a == ArgmaxN(c, EQTab(c, IF c.kind = "catd" THEN on ELSE tg), s2)
      Y(k) == WRet(c, w) + WDisc(c, w) * (k - 3)
  IN [z \in 1..NAtoms |-> Sum([k \in 1..NAtoms |-> Mul(PAt(c, tg, s2, a, k), Mass(Y(k), z))])]
NewLogits(c, on, tg, m) ==
  LET T == [j \in 1..Len(m.items) |-> ProjT(c, on, tg, m.items[j])]
      Cell(j, z) == (WS(c, m.items[j]) * c.A + WA(m.items[j])) * NAtoms + z
      H(j, z) == Rate(c, Mul(m.w[j], T[j][z] - PAt(c, on, WS(c, m.items[j]), WA(m.items[j]), z)))
  IN [x \in 1..Len(on.q_w) |->
        on.q_w[x] + Sum([j \in 1..Len(m.items) |->
           LET z == ((x - 1) % NAtoms) + 1 IN IF Cell(j, z) = x THEN H(j, z) ELSE 0])]
CatAmbiguous(c, on, tg, w) ==
  TieAt(c, EQTab(c, IF c.kind = "catd" THEN on ELSE tg), WS2(c, w))

\* ---- continuous actions: Q(s, a) = w[s][1] + w[s][2] * a
QC(p, s, a) == p[2 * s + 1] + Mul(p[2 * s + 2], a)
MinQ(x, y) == Min2(x, y)
Smooth(a) == a \div 2 + K \div 4
BootC(c, x, tg, w) ==
  LET s2 == WS2(c, w) IN
  CASE c.kind \in {"ddpg", "pgt"} -> QC(tg.q1_w, s2, tg.pi_mu[s2 + 1])
    [] c.kind = "td3" -> LET a == Smooth(tg.pi_mu[s2 + 1])
                         IN MinQ(QC(tg.q1_w, s2, a), QC(tg.q2_w, s2, a))
    [] OTHER -> LET a == x.on.pi_mu[s2 + 1]
                IN MinQ(QC(tg.q1_w, s2, a), QC(tg.q2_w, s2, a))
                   - Mul(x.temp, x.on.pi_lp[s2 + 1])
TargetC(c, x, w) == WRet(c, w) + Mul(WDisc(c, w), BootC(c, x, x.tg, w))
RateC(c, v) == ((IF c.kind = "sac" THEN 1 ELSE 2) * c.lr[1] * v) \div (c.lr[2] * c.B)
NewW(c, x, m, old) ==
  LET D == [j \in 1..Len(m.items) |->
              RateC(c, TargetC(c, x, m.items[j]) - QC(old, WS(c, m.items[j]), WA(m.items[j])))]
  IN [p \in 1..Len(old) |->
        old[p] + Sum([j \in 1..Len(m.items) |->
           IF WS(c, m.items[j]) # (p - 1) \div 2 THEN 0
           ELSE IF (p - 1) % 2 = 0 THEN D[j] ELSE Mul(D[j], WA(m.items[j]))])]
\* the policy ascends the (new) Q function
PiRate(c, v) == (c.lr[1] * v) \div (c.lr[2] * c.B)
NewMu(c, on, on2, m) ==
  [p \in 1..Len(on.pi_mu) |->
     on.pi_mu[p] + Sum([j \in 1..Len(m.items) |->
        IF WS(c, m.items[j]) # p - 1 THEN 0
        ELSE LET a == on.pi_mu[p]
                 first == c.kind # "sac" \/ QC(on2.q1_w, p - 1, a) <= QC(on2.q2_w, p - 1, a)
             IN PiRate(c, IF first THEN on2.q1_w[2 * p] ELSE on2.q2_w[2 * p])])]
PiAmbiguous(c, on, on2, m) ==
  c.kind = "sac" /\ \E j \in 1..Len(m.items) :
     LET s == WS(c, m.items[j]) IN
     Abs(QC(on2.q1_w, s, on.pi_mu[s + 1]) - QC(on2.q2_w, s, on.pi_mu[s + 1])) < 60
NewLp(c, x, m) ==
  [p \in 1..Len(x.on.pi_lp) |->
     x.on.pi_lp[p] - Sum([j \in 1..Len(m.items) |->
        IF WS(c, m.items[j]) # p - 1 THEN 0 ELSE PiRate(c, x.temp)])]
\* PGT: the sampled action is mu, the most probable one mu + 1/2; beta 1/4
NewLpPGT(c, on, on2, m) ==
  [p \in 1..Len(on.pi_lp) |->
     on.pi_lp[p] + Sum([j \in 1..Len(m.items) |->
        IF WS(c, m.items[j]) # p - 1 THEN 0
        ELSE PiRate(c, -(on2.q1_w[2 * p] \div 2) - K \div 4)])]
NewLtemp(c, x, m) ==
  IF c.ent = -999 THEN x.ltemp
  ELSE x.ltemp + Sum([j \in 1..Len(m.items) |->
         PiRate(c, Mul(x.temp, x.on.pi_lp[WS(c, m.items[j]) + 1] + (c.ent * K) \div 4))])

\* clauses of one update: x the snapshot before it (with the sampled items), y after
\* numbers beyond this are not followed (integer range)
Big(p) == \E n \in DOMAIN p : \E j \in 1..Len(p[n]) : Abs(p[n][j]) > 6 * K
UpdateFails(c, x, y, nth) ==
  LET tolq == 24 IN
  IF Big(x.on) \/ Big(x.tg) THEN {}
  ELSE IF c.kind \in {"cat", "catd"}
  THEN IF \E j \in 1..Len(x.items) : CatAmbiguous(c, x.on, x.tg, x.items[j]) THEN {}
       ELSE C("the distribution moves towards the projected target, weighted",
              NearSeq(y.on.q_w, NewLogits(c, x.on, x.tg, x), tolq))
  ELSE IF Discrete(c)
  THEN IF \E j \in 1..Len(x.items) : Ambiguous(c, x.on, x.tg, x.items[j]) THEN {}
       ELSE C("each sampled estimate moves towards its target, weighted, and no other",
              NearSeq(y.on.q_w, NewQ(c, x.on, x.tg, x), tolq))
            \cup C("errors reported for the samples are the absolute TD errors",
                   ~c.prio \/ (Len(x.errors) = Len(x.items) /\ \A j \in 1..Len(x.items) :
                      Near(x.errors[j], Reported(c, x.on, x.tg, x, j), tolq)))
  ELSE C("each critic moves towards its target",
         /\ NearSeq(y.on.q1_w, NewW(c, x, x, x.on.q1_w), tolq)
         /\ c.kind \notin {"ddpg", "pgt"} => NearSeq(y.on.q2_w, NewW(c, x, x, x.on.q2_w), tolq))
       \cup (IF c.kind = "td3" /\ nth % c.delay # 0
             THEN C("the policy changes only at every policy_update_delay-th update",
                    y.on.pi_mu = x.on.pi_mu)
             ELSE IF c.kind = "pgt"
             THEN C("log-probabilities follow the advantage and the entropy bonus",
                    NearSeq(y.on.pi_lp, NewLpPGT(c, x.on, y.on, x), tolq)
                    /\ y.on.pi_mu = x.on.pi_mu)
             ELSE IF PiAmbiguous(c, x.on, y.on, x) THEN {}
             ELSE C("the policy ascends the critic at the sampled states",
                    NearSeq(y.on.pi_mu, NewMu(c, x.on, y.on, x), tolq)))
       \cup (IF c.kind # "sac" THEN {}
             ELSE C("log-probabilities and temperature follow the entropy terms",
                    /\ NearSeq(y.on.pi_lp, NewLp(c, x, x), tolq)
                    /\ Near(y.ltemp, NewLtemp(c, x, x), tolq)))

\* ------------------------------------------------------------------ stored transitions
App(c, buf, e, x) == RBAppend(buf, c.cap, c.nstep, e, x, x[5])
Ap2(c, buf, e, x, stop) ==
  LET b == App(c, buf, e, x) IN IF stop THEN RBStop(b, c.cap, c.nstep, e) ELSE b

S0State(c) == [buf |-> RBEmpty(1..c.n_envs), pend |-> [e \in 1..c.n_envs |-> <<>>],
               t |-> 0, upd |-> 0, on |-> [z |-> <<0>>], tg |-> [z |-> <<0>>],
               last |-> [z |-> 0], due |-> FALSE, left |-> 0, tau |-> 0, env |-> 0, fails |-> {}]

\* Steps of one call: sequence of [x, env, stop, tau]: the transition to append (or <<>>),
\* and the number of the training step (-1: none)
Steps(c, s, e) ==
  CASE e.op = "step" ->
        <<[x |-> IF s.pend[1] = <<>> THEN <<>>
                 ELSE <<s.pend[1][1], s.pend[1][2], e.r[1], e.obs[1], FALSE>>,
           env |-> 1, stop |-> FALSE, tau |-> IF ZeroBased(c) THEN s.t ELSE s.t + 1]>>
    [] e.op = "end" ->
        <<[x |-> <<s.pend[1][1], s.pend[1][2], e.r[1], e.obs[1], e.done[1]>>,
           env |-> 1, stop |-> TRUE, tau |-> -1]>>
    [] e.op = "btrain" ->
        [k \in 1..c.n_envs |->
          [x |-> <<s.pend[k][1], s.pend[k][2], e.r[k], e.obs[k], e.done[k]>>,
           env |-> k, stop |-> e.done[k] \/ e.reset[k], tau |-> s.t + k]]
    [] OTHER -> <<>>
\* the buffer after each of the steps
RECURSIVE Bufs(_, _, _)
Bufs(c, b, q) ==
  IF q = <<>> THEN <<b>>
  ELSE LET h == Head(q)
           b2 == IF h.x = <<>> THEN b ELSE Ap2(c, b, h.env, h.x, h.stop)
       IN <<b>> \o Bufs(c, b2, Tail(q))
\* updates due in step k
DueIn(c, steps, bufs, k) == IF steps[k].tau < 0 THEN 0 ELSE Due(c, bufs[k + 1], steps[k].tau)
RECURSIVE Expected(_, _, _, _)
Expected(c, steps, bufs, k) ==
  IF k > Len(steps) THEN <<>>
  ELSE (IF steps[k].x = <<>> THEN <<>> ELSE <<[k |-> "append", step |-> k]>>)
       \o [j \in 1..DueIn(c, steps, bufs, k) |-> [k |-> "sample", step |-> k]]
       \o Expected(c, steps, bufs, k + 1)

\* P09
ScheduleFails(c, s, e, steps, bufs) ==
  LET ex == Expected(c, steps, bufs, 1)
      n == Cardinality({j \in 1..Len(ex) : ex[j].k = "sample"})
      same == Len(e.micro) = Len(ex) /\ \A j \in 1..Len(ex) : e.micro[j].k = ex[j].k
      snaps == <<s.last>> \o e.micro \o <<e>>
  IN C("updates happen exactly at the scheduled steps with enough data", same)
     \cup C("n_updates counts the updates", e.nupd < 0 \/ e.nupd = s.upd + n)
     \cup C("the model is untouched except by an update",
            \A j \in 1..(Len(snaps) - 1) :
               (j = 1 \/ snaps[j].k = "append") => snaps[j + 1].on = snaps[j].on)
     \cup (IF ~same THEN {}
           ELSE C("each update uses minibatch_size distinct stored items",
             \A j \in 1..Len(ex) : ex[j].k = "sample" =>
               LET it == e.micro[j].items
               IN /\ Len(it) = c.B /\ Distinct(it)
                  /\ Range(it) \subseteq Range(bufs[ex[j].step + 1].mem)))
\* P22, P23
StoreFails(c, s, e, steps, bufs) ==
  LET b == bufs[Len(bufs)]
      seen == c.store /\ ~c.prio
  IN C("the number of stored items is that of the windows experienced", e.n = Len(b.mem))
     \cup (IF ~seen THEN {}
           ELSE C("nothing but experienced windows is stored",
                  \A j \in 1..Len(e.store) : e.store[j] \in Range(b.mem))
                \cup C("every experienced window is stored once",
                  Len(e.store) = Len(b.mem) /\ \A j \in 1..Len(b.mem) : b.mem[j] \in Range(e.store)))
     \cup C("every observation gets an action",
            e.op \in {"step", "bact", "beval", "eval"} => Len(e.act) = Len(e.obs))
     \cup C("discrete actions are in range",
            ~Discrete(c) \/ \A j \in 1..Len(e.act) : e.act[j] \in 0..(c.A - 1))
\* P24: walk over the snapshots of a call; tg the target as settled, due: a sync of
\* the current step has not been seen yet, ref: online parameters at the step's start
Resolve(c, w) == IF w.due THEN SyncP(c, Real(w.tg), w.ref) ELSE Real(w.tg)
RECURSIVE Walk(_, _, _, _, _, _)
Walk(c, e, steps, ex, w, j) ==
  LET last == j > Len(ex)
      y == IF last THEN e ELSE e.micro[j]
      \* entering the step of this entry: its sync becomes due
      k == IF last THEN Len(steps) ELSE ex[j].step
      enter == k > w.step
      w1 == IF ~enter THEN w
            ELSE LET RECURSIVE In(_, _)
                     In(v, q) == IF q > k THEN v
                       ELSE In([v EXCEPT !.tg = Resolve(c, v),
                                         !.due = steps[q].tau >= 0 /\ Scheduled(c, steps[q].tau),
                                         !.ref = y.on, !.step = q], q + 1)
                 IN In(w, w.step + 1)
      \* SAC and TD3 synchronize at the end of an update
      upsync == j > 1 /\ ex[j - 1].k = "sample" /\
                \/ c.kind = "sac"
                \/ c.kind = "td3" /\ w.upd % c.delay = 0
      base == IF upsync THEN [w1 EXCEPT !.tg = SyncP(c, Real(w1.tg), y.on)] ELSE w1
      tol == IF upsync THEN 3 ELSE 0
      mayold == ~last /\ ex[j].k = "append"
      okold == (~base.due \/ mayold) /\ SameTg(c, y.tg, base.tg, tol)
      oknew == base.due /\ SameTg(c, y.tg, Resolve(c, base), Tol(c))
      okamb == base.amb /\ ~(okold \/ oknew) /\ SameTg(c, y.tg, base.tg, 2 * Tol(c))
      f == IF okold \/ oknew \/ okamb THEN {}
           ELSE IF base.due THEN {"a scheduled sync makes the target what the rule says"}
           ELSE IF upsync THEN {"the target follows the online network after the update"}
           ELSE {"the target changes only at scheduled syncs"}
      w2 == [base EXCEPT !.tg = Real(y.tg), !.on = y.on,
                         !.due = IF oknew THEN FALSE ELSE base.due,
                         \* it cannot be told whether the sync has happened yet
                         !.amb = (okold /\ oknew) \/ (@ /\ ~okamb),
                         !.upd = IF ~last /\ ex[j].k = "sample" THEN @ + 1 ELSE @]
  IN IF last THEN f
     ELSE IF f # {} THEN f ELSE Walk(c, e, steps, ex, w2, j + 1)
TargetFails(c, s, e, steps, bufs) ==
  LET ex == Expected(c, steps, bufs, 1)
  IN IF ~HasTarget(c) \/ Len(ex) # Len(e.micro) \/ \E j \in 1..Len(ex) : ex[j].k # e.micro[j].k
     THEN {}
     ELSE Walk(c, e, steps, ex,
               [tg |-> Real(s.last.tg), on |-> s.last.on, ref |-> s.last.on, due |-> FALSE,
                amb |-> FALSE, step |-> 0, upd |-> s.upd], 1)
\* P25
ValueFails(c, s, e) ==
  LET snaps == e.micro \o <<e>>
      nth(j) == s.upd + Cardinality({q \in 1..j : snaps[q].k = "sample"})
  IN UNION {IF snaps[j].k # "sample" THEN {}
            ELSE UpdateFails(c, snaps[j], snaps[j + 1], nth(j)) : j \in 1..Len(e.micro)}

OFails(c, s, e) ==
  IF e.raised THEN {"the call succeeds"}
  ELSE IF e.op = "init"
  THEN C("a target network starts equal to the online network",
         c.check # "P24" \/ \A n \in DOMAIN e.tg : e.tg[n] = e.on[n])
  ELSE LET steps == Steps(c, s, e)
           bufs == Bufs(c, s.buf, steps)
       IN CASE c.check = "P09" -> ScheduleFails(c, s, e, steps, bufs)
            [] c.check \in {"P22", "P23"} -> StoreFails(c, s, e, steps, bufs)
            [] c.check = "P24" -> TargetFails(c, s, e, steps, bufs)
            [] OTHER -> ValueFails(c, s, e)
OPost(c, s, e) ==
  LET steps == Steps(c, s, e)
      bufs == Bufs(c, s.buf, steps)
      n == Cardinality({j \in 1..Len(e.micro) : e.micro[j].k = "sample"})
  IN [s EXCEPT !.buf = bufs[Len(bufs)],
               !.upd = @ + n,
               !.t = IF e.op = "step" THEN @ + 1
                     ELSE IF e.op = "btrain" THEN @ + c.n_envs ELSE @,
               !.last = e,
               !.pend = CASE e.op = "step" -> <<(<<e.obs[1], e.act[1]>>)>>
                          [] e.op = "end" -> <<(<<>>)>>
                          [] e.op = "bact" -> [k \in 1..c.n_envs |-> <<e.obs[k], e.act[k]>>]
                          [] e.op = "btrain" -> [k \in 1..c.n_envs |-> <<>>]
                          [] OTHER -> @]
====================================================================================
