-------------------------------- MODULE DistribTrace --------------------------------
(* Events "new" (via and its inputs), "copy" (h), "slice" (h, idx), "mutate" (roots    *)
(* the driver overwrote), "look" (h), "kl" (h, g), "sample" (h), "swlp" (h).           *)
EXTENDS Distrib, Stat, TraceData
VARIABLES tid, i, st, bad
S0(c) == <<>>
Post(c, s, e) == CASE e.op = "new" -> Append(s, Make(e))
                   [] e.op = "copy" -> Append(s, s[e.h])
                   [] e.op = "slice" -> Append(s, Pick(s[e.h], e.idx))
                   [] OTHER -> s
Near(a, b, t) == Abs(a - b) <= t
Slack(d) == IF d.kind = "mel" THEN 300 ELSE 24
\* seq has one entry per row of d and each fulfils P
Rows(d, seq, P(_)) == Len(seq) = Len(d.rows) /\ \A k \in 1..Len(d.rows) : P(k)
AllNear(a, b, t) == Len(a) = Len(b) /\ \A k \in 1..Len(b) : Near(a[k], b[k], t + Abs(b[k]) \div 300)
\* the same, b depending on variances v known to 4 units
AllNearV(a, b, t, v) == Len(a) = Len(b) /\ \A k \in 1..Len(b) :
                          Near(a[k], b[k], t + Abs(b[k]) \div 300 + ((Abs(b[k]) \div v[k]) + 1) * 8)
ProbNear(p, lp, t) == IF lp > 80000 THEN TRUE ELSE Near(p, Exp(lp), 3 + t + Exp(lp) \div 50)
CatLook(d, e) ==
  LET r(k) == d.rows[k]
      a(k) == e.acts[k] + 1
      t == Slack(d)
  IN C("all probabilities are those of the distribution",
       Rows(d, e.allp, LAMBDA k : AllNear(e.allp[k], [j \in 1..Len(r(k).p) |-> r(k).p[j] \div 16],
                                          IF d.kind = "mel" THEN 100 ELSE 6)))
     \cup C("all log probabilities are those of the distribution",
       Rows(d, e.alllp, LAMBDA k : AllNear(e.alllp[k], r(k).lp, t)))
     \cup C("log_prob picks the log probability of the action",
       Rows(d, e.lp, LAMBDA k : Near(e.lp[k], r(k).lp[a(k)], t)))
     \cup C("prob picks the probability of the action",
       Rows(d, e.prob, LAMBDA k : Near(e.prob[k], r(k).p[a(k)] \div 16, IF d.kind = "mel" THEN 100 ELSE 6)))
     \cup C("the most probable action has the highest probability",
       Rows(d, e.most, LAMBDA k : (e.most[k] + 1) \in ArgMaxes(r(k).z) \/ r(k).s = 0))
     \cup C("entropy is minus the expected log probability",
       Rows(d, e.ent, LAMBDA k : Near(e.ent[k], CatEntropy(r(k)), t + 16)))
     \cup C("gradients of log_prob reach the logits",
       e.hasg => Rows(d, e.glp, LAMBDA k : AllNear(e.glp[k], DLogp(r(k), a(k)), 30)))
     \cup C("gradients of the entropy reach the logits",
       e.hasg => Rows(d, e.ge, LAMBDA k : AllNear(e.ge[k], DEntropy(r(k)), 40)))
GauLook(d, e) ==
  LET r(k) == d.rows[k]
      squ == d.kind = "squ"
      u(k) == IF squ THEN Unsquash(e.x[k]) ELSE e.x[k]
      lp(k) == IF squ THEN SqLogp(r(k), e.x[k]) ELSE GauLogp(r(k), e.x[k])
      t(k) == 24 + GauSlack(r(k), u(k))
  IN C("log_prob is the log density", Rows(d, e.lp, LAMBDA k : Near(e.lp[k], lp(k), t(k))))
     \cup C("prob is the density", Rows(d, e.prob, LAMBDA k : ProbNear(e.prob[k], lp(k), t(k) \div 20)))
     \cup C("the mode is the mean (squashed)",
       Rows(d, e.most, LAMBDA k : AllNear(e.most[k],
              IF squ THEN [j \in 1..Len(r(k).m) |-> Tanh(r(k).m[j])] ELSE r(k).m, 6)))
     \cup C("entropy is that of the Gaussian",
       squ \/ Rows(d, e.ent, LAMBDA k : Near(e.ent[k], GauEntropy(r(k)), 24 + Sum([j \in 1..Len(r(k).v) |-> 16384 \div r(k).v[j]]))))
     \cup C("gradients of log_prob reach mean and variance",
       e.hasg => /\ Rows(d, e.glp, LAMBDA k : AllNearV(e.glp[k], DMean(r(k), u(k)), 30, r(k).v))
                 /\ e.hasgv => Rows(d, e.glv, LAMBDA k : AllNearV(e.glv[k], DVar(r(k), u(k)), 60, r(k).v)))
     \cup C("gradients of log_prob reach the action",
       Rows(d, e.gx, LAMBDA k :
         AllNearV(e.gx[k],
                  [j \in 1..Len(r(k).m) |->
                    LET g == -SignedDiv(u(k)[j] - r(k).m[j], r(k).v[j])
                    IN IF squ THEN SignedDiv(g + 2 * e.x[k][j], K - Mul(e.x[k][j], e.x[k][j])) ELSE g],
                  40 + MaxSeq([j \in 1..Len(r(k).m) |-> SignedDiv(Abs(u(k)[j] - r(k).m[j]) \div 200, r(k).v[j])]), r(k).v)))
     \cup C("gradients of the entropy reach the variance only",
       (e.hasgv /\ ~squ) => Rows(d, e.ge, LAMBDA k :
          AllNearV(e.ge[k], [j \in 1..Len(r(k).v) |-> Div(K, 2 * r(k).v[j])], 20, r(k).v)))
DetLook(d, e) ==
  C("a deterministic distribution is its point",
    Rows(d, e.most, LAMBDA k : AllNear(e.most[k], d.rows[k].m, 6)))
LookFails(d, e) == CASE d.kind \in {"cat", "mel"} -> CatLook(d, e)
                     [] d.kind = "det" -> DetLook(d, e)
                     [] OTHER -> GauLook(d, e)
KLFails(d, q, e) ==
  LET r(k) == d.rows[k]
  IN IF d.kind \in {"cat", "mel"}
     THEN C("kl is the expected difference of log probabilities",
            Rows(d, e.kl, LAMBDA k : Near(e.kl[k], CatKL(r(k), q.rows[k]), Slack(d) + Slack(q))))
          \cup C("gradients of kl reach the logits",
            e.hasg => Rows(d, e.gk, LAMBDA k : AllNear(e.gk[k], DKL(r(k), q.rows[k]), 30 + Slack(q))))
     ELSE C("kl is the divergence of Gaussians",
            Rows(d, e.kl, LAMBDA k : Near(e.kl[k], GauKL(r(k), q.rows[k]), 40 + Abs(e.kl[k]) \div 100 + Sum([j \in 1..Len(r(k).v) |-> 16384 \div r(k).v[j] + 16384 \div q.rows[k].v[j]]))))
          \cup C("gradients of kl reach mean and variance",
            /\ e.hasg => Rows(d, e.gk, LAMBDA k :
                 AllNearV(e.gk[k], [j \in 1..Len(r(k).m) |->
                            SignedDiv(r(k).m[j] - q.rows[k].m[j], q.rows[k].v[j])], 40, q.rows[k].v))
            /\ e.hasgv => Rows(d, e.gkv, LAMBDA k :
                 AllNear(e.gkv[k], [j \in 1..Len(r(k).m) |->
                            (Div(K, q.rows[k].v[j]) - Div(K, r(k).v[j])) \div 2], 40 + MaxSeq([j \in 1..Len(r(k).v) |-> (Div(4 * K, r(k).v[j]) \div r(k).v[j]) + (Div(4 * K, q.rows[k].v[j]) \div q.rows[k].v[j])]))))
Clamp(p) == Max2(1, Min2(p, K - 1))
Freq(cnt, N, p) == FreqOK(cnt, N, Clamp(p), K)
SampleFails(d, e) ==
  LET r(k) == d.rows[k]
      P(k, j) == IF d.kind \in {"cat", "mel"} THEN r(k).p[j] \div 16
                 ELSE LET t == IF d.kind = "squ" THEN Unsquash(<<e.thr[k][j]>>)[1] ELSE e.thr[k][j]
                      IN Below(r(k), j, t)
      n == Len(e.cnt[1])
  IN C("samples have the shape and type of actions", e.shape)
     \cup C("samples follow the distribution",
       Rows(d, e.cnt, LAMBDA k : \A j \in 1..n : Freq(e.cnt[k][j], e.N, P(k, j))))
     \cup C("rows are sampled independently",
       e.two >= 0 => Freq(e.two, e.N, Mul(P(1, e.j1), P(2, e.j2))))
     \cup C("components are sampled independently",
       e.comp >= 0 => Freq(e.comp, e.N, Mul(P(1, 1), P(1, 2))))
     \cup C("successive samples are independent",
       Freq(e.succ, e.N \div 2, Mul(P(1, e.j1), P(1, e.j1))))
\* sample_with_log_prob
SwFails(d, e) ==
  LET r(k) == d.rows[k]
      squ == d.kind = "squ"
      inside(k) == ~squ \/ \A j \in 1..Len(e.y[k]) : Abs(e.y[k][j]) < 7000
      u(k) == IF squ THEN Unsquash(e.y[k]) ELSE e.y[k]
      lp(k) == IF squ THEN SqLogp(r(k), e.y[k]) ELSE GauLogp(r(k), e.y[k])
      dev(k) == Sum([j \in 1..Len(u(k)) |-> Div(Abs(u(k)[j] - r(k).m[j]), r(k).v[j])])
      jac(k, j) == IF squ THEN K - Mul(e.y[k][j], e.y[k][j]) ELSE K
  IN IF d.kind \in {"cat", "mel"}
     THEN C("samples come with their log probability",
            Rows(d, e.lp, LAMBDA k : Near(e.lp[k], r(k).lp[e.acts[k] + 1], Slack(d))))
     ELSE C("samples come with their log probability",
            Rows(d, e.lp, LAMBDA k : inside(k) =>
              Near(e.lp[k], lp(k), 40 + GauSlack(r(k), u(k)) + dev(k) \div (IF squ THEN 600 ELSE 3000))))
          \cup C("samples are differentiable in mean and variance",
            /\ e.hasg => Rows(d, e.gm, LAMBDA k : inside(k) =>
                 AllNear(e.gm[k], [j \in 1..Len(u(k)) |-> jac(k, j)], 20))
            /\ e.hasgv => Rows(d, e.gv, LAMBDA k : inside(k) =>
                 AllNearV(e.gv[k], [j \in 1..Len(u(k)) |->
                     Mul(SignedDiv(u(k)[j] - r(k).m[j], 2 * r(k).v[j]), jac(k, j))], 60, r(k).v)))
DetSample(d, e) == C("a deterministic distribution samples its point",
                     Rows(d, e.y, LAMBDA k : AllNear(e.y[k], d.rows[k].m, 6)))
Fails(c, s, e) ==
  IF e.exc # "" THEN {"an operation raised an exception"}
  ELSE CASE e.op = "look" -> LookFails(s[e.h], e)
         [] e.op = "kl" -> KLFails(s[e.h], s[e.g], e)
         [] e.op = "sample" -> SampleFails(s[e.h], e)
         [] e.op = "swlp" -> IF s[e.h].kind = "det" THEN DetSample(s[e.h], e) ELSE SwFails(s[e.h], e)
         [] e.op = "copy" -> C("copies are unchained from the graph", ~e.linked)
         [] OTHER -> {}
INSTANCE TraceBase
=====================================================================================
