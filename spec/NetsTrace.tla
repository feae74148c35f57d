---------------------------------- MODULE NetsTrace ---------------------------------
(* Networks: events "set" (parameters), "look" (a forward pass, training or not, and  *)
(* gradients of the sum of w * output), "noisy" (linear layers made noisy), "quad".    *)
(* Functions and others: one event each, named after what was called.                 *)
EXTENDS Nets, Stat, TraceData
VARIABLES tid, i, st, bad
S0(c) == [P |-> <<>>, S |-> [k \in 1..Len(c.bn) |->
                              [m |-> [j \in 1..c.bn[k] |-> 0], v |-> [j \in 1..c.bn[k] |-> K]]],
          fresh |-> TRUE, lost |-> FALSE]
Rep(A, n) == IF A = <<>> THEN [k \in 1..n |-> <<>>] ELSE A
TheActs(c, s, e) == Acts(Layers(c, s.P), e.x, e.a, s.S, e.train)
Post(c, s, e) ==
  CASE e.op = "set" -> [s EXCEPT !.P = e.P]
    [] e.op = "look" /\ e.train /\ IsBN(c) ->
         IF Murky(Layers(c, s.P), TheActs(c, s, e), s.S, TRUE) THEN [s EXCEPT !.lost = TRUE]
         ELSE [s EXCEPT !.S = NewStat(Layers(c, s.P), TheActs(c, s, e), s.S), !.fresh = FALSE]
    [] OTHER -> s
Tolr(c) == IF IsBN(c) THEN 200 ELSE 30
Pre(s, n) == SubSeq(s, 1, n)
\* after normalization, too close to the kink of relu to know the gradient
Kink(c, L, acts) == /\ IsBN(c)
                    /\ \E j \in 1..Len(L) : L[j].t = "relu" /\ \E k \in 1..Len(acts[j]) :
                          \E n \in 1..Len(acts[j][k]) : Abs(acts[j][k][n]) < 30
LookFails(c, s, e) ==
  LET L == Layers(c, s.P)
      acts == TheActs(c, s, e)
      n == Len(L) + 1
      t == Tolr(c)
      ok == ~s.lost /\ ~Murky(L, acts, s.S, e.train)
  IN IF ~ok THEN {}
     ELSE (IF c.kind = "dist"
           THEN C("every action has the distribution of its own atoms",
                  NearMat(e.y, [k \in 1..Len(e.x) |-> Flat(Dists(acts[n][k], c.na, c.nz))], 12))
                \cup C("atoms are equally spaced from v_min to v_max", NearSeq(e.z, LinSpace(c.vmin, c.vmax, c.nz), 4))
           ELSE C("the network computes its layers", NearMat(e.y, acts[n], t)))
          \cup (IF e.grad /\ s.fresh /\ ~Kink(c, L, acts)
                THEN LET G(k) == Back(L, acts, k, e.w[k], s.S)
                     IN C("gradients reach the inputs",
                          NearMat(e.gx, [k \in 1..Len(e.x) |-> IF L[1].t = "cat" THEN Pre(G(k).x, c.ni)
                                                               ELSE G(k).x], t))
                        \cup C("gradients reach the actions",
                          c.sa => NearMat(e.ga, [k \in 1..Len(e.x) |-> G(k).a], t))
                ELSE {})
NoisyFails(c, s, e) ==
  C("every linear layer becomes noisy", e.plain = 0 /\ e.noisy = e.total)
  \cup C("noise scales start as sigma_scale over the root of the number of inputs",
         \A k \in 1..Len(e.sig) : LET z == e.sig[k]      \* <<inputs, least, greatest>>
                                  IN /\ z[3] - z[2] <= 2
                                     /\ Near(Mul(z[3], z[3]) * z[1], Mul(e.scale, e.scale), 8 * z[1]))
  \cup C("means start uniform between -1 and 1 over the root of the number of inputs",
         \A k \in 1..Len(e.mu) : LET z == e.mu[k]        \* <<inputs, least, greatest>>
                                 IN Mul(z[3], z[3]) * z[1] <= K + 8 * z[1] /\ Mul(z[2], z[2]) * z[1] <= K + 8 * z[1])
\* quadratic action values: from a network or from mu, mat, v
QuadFails(c, s, e) ==
  LET L == Layers(c, s.P)
      acts == IF e.direct THEN <<>> ELSE TheActs(c, s, e)
      net(k) == QuadOf(c, s.P, acts[Len(acts)][k])
      z(k) == [mu |-> e.mu[k], mat |-> e.mat[k], v |-> e.v[k]]
      N == Len(e.mu)
      t == 60
      Rt(k) == t + Abs(z(k).v - Quad(z(k), e.u[k])) \div 200
      Each(P(_)) == \A k \in 1..N : P(k)
      g(k) == Clip(e.mu[k], e.lo, e.hi)
      best(k) == Quad(z(k), g(k))
      val(k) == Quad(z(k), e.u[k])
  IN (IF e.direct \/ Murky(L, acts, s.S, FALSE) THEN {}
      ELSE C("value, best action and curvature are those of the layers",
             /\ Len(e.x) = N
             /\ Each(LAMBDA k : /\ Near(e.v[k], net(k).v, t + Tolr(c))
                                /\ NearSeq(e.mu[k], net(k).mu, t + Tolr(c))
                                /\ NearMat(e.mat[k], net(k).mat, 2 * t + 3 * Tolr(c)))))
     \cup C("action values are quadratic around mu", Each(LAMBDA k : Near(e.q[k], val(k), Rt(k))))
     \cup C("the greedy action is mu within the bounds", Each(LAMBDA k : NearSeq(e.greedy[k], g(k), 3)))
     \cup C("the maximum is the value of the greedy action",
            Each(LAMBDA k : Near(e.max[k], best(k), t + Abs(z(k).v - best(k)) \div 200)))
     \cup C("advantages are relative to the maximum",
            Each(LAMBDA k : Near(e.adv[k], e.q[k] - e.max[k], 6)))
     \cup C("double advantages compare two actions",
            Each(LAMBDA k : Near(e.dadv[k], val(k) - Quad(z(k), e.u2[k]),
                                 Rt(k) + Abs(z(k).v - Quad(z(k), e.u2[k])) \div 200)))
     \cup C("a slice holds the values of its rows",
            \A k \in 1..Len(e.idx) : e.sq[k] = e.q[e.idx[k]] /\ e.smax[k] = e.max[e.idx[k]])
     \cup C("gradients reach the action", Each(LAMBDA k : NearSeq(e.gu[k], DQuad(z(k), e.u[k]), t)))
FnFails(c, s, e) ==
  LET X == e.x
      N == Len(X)
      B(f(_)) == [k \in 1..N |-> f(k)]
  IN CASE e.f = "bound" ->
            C("bound_by_tanh bounds by tanh",
              /\ NearMat(e.y, B(LAMBDA k : [j \in 1..Len(X[k]) |-> Bound(X[k][j], e.lo[j], e.hi[j])]), 8)
              /\ NearMat(e.gx, B(LAMBDA k : [j \in 1..Len(X[k]) |->
                                    Mul(e.g[k][j], DBound(X[k][j], e.lo[j], e.hi[j]))]), 16)
              /\ \A k \in 1..N : \A j \in 1..Len(X[k]) : e.y[k][j] >= e.lo[j] /\ e.y[k][j] <= e.hi[j])
       [] e.f = "invert" ->
            C("invert_gradients keeps values and inverts gradients at the borders",
              /\ e.y = X
              /\ NearMat(e.gx, B(LAMBDA k : [j \in 1..Len(X[k]) |->
                                    Invert(X[k][j], e.g[k][j], e.lo[j], e.hi[j])]), 6))
       [] e.f = "tril" ->
            C("lower_triangular_matrix places diagonal and rows",
              \A k \in 1..N : e.y[k] = LT(X[k], e.z[k]))
            \cup C("its gradient picks the entries",
              \A k \in 1..N :
                /\ e.gx[k] = [j \in 1..Len(X[k]) |-> e.gm[k][j][j]]
                /\ \A r, j \in 1..Len(X[k]) : j < r =>
                      e.gz[k][((r - 1) * (r - 2)) \div 2 + j] = e.gm[k][r][j])
       [] e.f = "mellow" ->
            C("mellowmax is the log average exponential",
              /\ NearSeq(e.y, B(LAMBDA k : Mellow(X[k], e.om)), 40)
              /\ NearMat(e.gx, B(LAMBDA k : [j \in 1..Len(X[k]) |-> Mul(e.g[k], DMellow(X[k], e.om)[j])]), 30))
       [] e.f = "muladd" ->
            C("muladd is x y + z",
              /\ \A k \in 1..N : /\ e.y[k] = [j \in 1..Len(X[k]) |-> Mul(X[k][j], e.z[k][j]) + e.t[k][j]]
                                 /\ e.gx[k] = [j \in 1..Len(X[k]) |-> Mul(e.z[k][j], e.g[k][j])]
                                 /\ e.gz[k] = [j \in 1..Len(X[k]) |-> Mul(X[k][j], e.g[k][j])]
                                 /\ e.gt[k] = e.g[k])
       [] e.f = "scale" ->
            C("scale_grad scales only gradients",
              /\ e.y = X
              /\ \A k \in 1..N : e.gx[k] = [j \in 1..Len(X[k]) |-> Mul(e.c, e.g[k][j])])
       [] OTHER ->
            C("sums of arrays are weighted sums, and so are their gradients",
              /\ e.y = [j \in 1..Len(X[1]) |-> Sum([k \in 1..N |-> Mul(e.c[k], X[k][j])])]
              /\ \A k \in 1..N : e.gx[k] = [j \in 1..Len(X[1]) |-> Mul(e.c[k], e.g[j])])
DuelFails(c, s, e) ==
  C("dueling: action values are the value plus centred advantages",
    IF e.nz = 0 THEN \A k \in 1..Len(e.q) : NearSeq(e.q[k], Duel(e.A, e.V[1]), 8)
    ELSE \A k \in 1..Len(e.q) : NearMat(e.q[k], DuelZ(e.A, e.V), 10))
  \cup C("dueling: shifts of the streams' outputs shift the action values accordingly",
    \A k \in 1..Len(e.d) : NearSeq(e.d[k], Duel(e.dA, e.dV), 12))
  \cup C("dueling: the value is the same for all actions, the advantages sum to zero",
    \A k \in 1..Len(e.m) : NearSeq(e.m[k], [j \in 1..Len(e.m[k]) |-> e.m[k][1]], 12))
\* noise: y rows for inputs 0, unit vectors; R(k, j) = product of the noises of input k and output j
NoiseFails(c, s, e) ==
  LET E == e.y0
  IN C("noise is a product of input and output noise",
       \A r \in 1..Len(e.R) :
         LET R == e.R[r] IN
         \A k, h \in 1..Len(R) : \A j, l \in 1..Len(R[1]) :
            Near(Mul(R[k][j], R[h][l]), Mul(R[k][l], R[h][j]),
                 12 + (Abs(R[k][j]) + Abs(R[h][l]) + Abs(R[k][l]) + Abs(R[h][j])) \div 2000))
     \cup C("the bias has the noise of the outputs",
       e.bias => \A r \in 1..Len(e.R) : \A k \in 1..Len(e.R[r]) : \A j, l \in 1..Len(e.R[r][1]) :
            Near(Mul(e.R[r][k][j], E[r][l]), Mul(e.R[r][k][l], E[r][j]),
                 12 + (Abs(e.R[r][k][j]) + Abs(e.R[r][k][l]) + Abs(E[r][l]) + Abs(E[r][j])) \div 2000))
     \cup C("noise is drawn anew in every call",
       \A r, h \in 1..Len(e.R) : r # h => e.R[r] # e.R[h])
     \cup C("noises are signed roots of standard normal numbers",
       \A z \in Range(e.cnt) : FreqOK(z[1], e.N, z[2], 10000))
HalfOK(z) == FreqOK(z[1], z[2], z[3], 10000)
SeqFails(c, s, e) ==
  LET n == Len(e.acc)
      Kw(j) == IF e.acc[j].all THEN Range(e.kw) ELSE Range(e.kw) \cap Range(e.acc[j].names)
  IN IF e.branched
     THEN C("Branched gives everything to each child and collects the results",
            /\ e.out = [j \in 1..n |-> e.acc[j].add + e.x]
            /\ \A j \in 1..n : Range(e.got[j]) = Range(e.kw))
     ELSE C("Sequence passes results on, and to each layer the arguments it accepts",
            /\ e.out = <<e.x + Sum([j \in 1..n |-> e.acc[j].add])>>
            /\ Len(e.got) = n
            /\ \A j \in 1..n : Range(e.got[j]) = Kw(j))
OrthFails(c, s, e) ==
  LET W == e.W
      M == IF Len(W) > Len(W[1]) THEN Transp(W) ELSE W
      ss == Mul(e.scale, e.scale)
  IN C("Orthogonal makes orthogonal vectors of the given length",
       NearMat(Gram(M), [k \in 1..Len(M) |-> [j \in 1..Len(M) |-> IF k = j THEN ss ELSE 0]], 30))
\* <<filters, size, stride>> on 4 x 84 x 84 images
Convs(nature) == IF nature THEN <<<<32, 8, 4>>, <<64, 4, 2>>, <<64, 3, 1>>>> ELSE <<<<16, 8, 4>>, <<32, 4, 2>>>>
ShapeFails(c, s, e) ==
  LET cv == Convs(e.nature)
      n == Len(cv)
      Size[k \in 0..n] == IF k = 0 THEN 84 ELSE (Size[k - 1] - cv[k][2]) \div cv[k][3] + 1
      Ch(k) == IF k = 0 THEN 4 ELSE cv[k][1]
  IN C("heads have the documented architecture",
       /\ e.got = [k \in 1..(n + 1) |->
                    IF k <= n THEN <<Ch(k), Ch(k - 1), cv[k][2], cv[k][2]>>
                    ELSE <<5, Ch(n) * Size[n] * Size[n]>>]
       /\ e.out = <<2, 5>> /\ e.least >= 0)
Fails(c, s, e) ==
  IF e.exc # "" THEN {"an operation on a network failed"}
  ELSE CASE e.op = "set" -> {}
         [] e.op = "look" -> LookFails(c, s, e)
         [] e.op = "noisy" -> NoisyFails(c, s, e)
         [] e.op = "quad" -> QuadFails(c, s, e)
         [] e.op = "fn" -> FnFails(c, s, e)
         [] e.op = "duel" -> DuelFails(c, s, e)
         [] e.op = "noise" -> NoiseFails(c, s, e)
         [] e.op = "freq" -> C("initial weights follow the documented distribution", HalfOK(e.z))
         [] e.op = "bounds" -> C("initial weights have the documented bounds",
                                 Mul(e.z[2], e.z[2]) * e.z[1] <= K + 8 * e.z[1])
         [] e.op = "shape" -> ShapeFails(c, s, e)
         [] e.op = "orth" -> OrthFails(c, s, e)
         [] OTHER -> SeqFails(c, s, e)
INSTANCE TraceBase
=====================================================================================
