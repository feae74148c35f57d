------------------------------------ MODULE Nets ------------------------------------
(* What networks, Q-functions and differentiable functions compute.  A network is a   *)
(* list of layers acting on batches; its gradients follow by the chain rule.  The     *)
(* state of a network are its parameters and, with batch normalization, running       *)
(* statistics.  Reals are integers scaled by K.                                       *)
EXTENDS Util, FixedPoint
Near(a, b, t) == Abs(a - b) <= t
NearSeq(x, y, t) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : Near(x[j], y[j], t + Abs(y[j]) \div 300)
NearMat(X, Y, t) == Len(X) = Len(Y) /\ \A k \in 1..Len(X) : NearSeq(X[k], Y[k], t)
\* the larger factor first: fewer overflows
Times(a, b) == IF Abs(a) < Abs(b) THEN Mul(b, a) ELSE Mul(a, b)
Dot(a, b) == Sum([j \in 1..Len(a) |-> Times(a[j], b[j])])
Add(a, b) == [j \in 1..Len(a) |-> a[j] + b[j]]
MapM(f(_), X) == [k \in 1..Len(X) |-> [j \in 1..Len(X[k]) |-> f(X[k][j])]]
\* evaluated once
Now(v) == <<>> \o v
NowM(X) == <<>> \o [k \in 1..Len(X) |-> <<>> \o X[k]]
Relu(x) == Max2(0, x)
RECURSIVE Isqrt(_, _, _)
Isqrt(n, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Isqrt(n, m, hi) ELSE Isqrt(n, lo, m)
Sqrt(v) == Isqrt(v * K, 0, 46340)              \* v < 30 K

\* ------------------------------------------------------------------ layers
Lin(p) == [t |-> "lin", W |-> p.W, b |-> p.b]
Nl(f) == [t |-> f]
Bn(k) == [t |-> "bn", k |-> k]
Cat == [t |-> "cat"]
\* hidden layers j..h with nonlinearity f, batch norms from number k on when bn
RECURSIVE Hid(_, _, _, _, _, _)
Hid(P, j, h, f, bn, k) ==
  IF j > h THEN <<>>
  ELSE <<Lin(P[j])>> \o (IF bn THEN <<Bn(k)>> ELSE <<>>) \o <<Nl(f)>> \o Hid(P, j + 1, h, f, bn, k + 1)
MLP(P, f) == Hid(P, 1, Len(P) - 1, f, FALSE, 0) \o <<Lin(Last(P))>>
\* batch norms in order: input, hidden, output
MLPBN(P, f, nin, nout) ==
  LET k == IF nin THEN 1 ELSE 0
      h == Len(P) - 1
  IN (IF nin THEN <<Bn(1)>> ELSE <<>>) \o Hid(P, 1, h, f, TRUE, k + 1) \o <<Lin(Last(P))>>
     \o (IF nout THEN <<Bn(k + h + 1)>> ELSE <<>>)
From(P, k) == SubSeq(P, k, Len(P))
\* recurrent nets: the first step of an LSTM with open gates
Lstm(P, f) == LET n == Len(P) IN MLP(SubSeq(P, 1, n - 2), f)
                 \o <<Nl(f), Lin(P[n - 1]), Nl("tanh"), Nl("tanh"), Lin(P[n])>>
Layers(c, P) ==
  CASE c.kind \in {"mlp", "v", "sq", "dist"} -> MLP(P, c.nl)
    [] c.kind = "mlpbn" -> MLPBN(P, c.nl, c.nin, c.nout)
    [] c.kind = "sa" -> <<Cat>> \o MLP(P, c.nl)
    [] c.kind = "bnsa" -> <<Cat>> \o MLPBN(P, c.nl, c.nin, FALSE)
    [] c.kind = "late" -> <<Lin(P[1]), Nl(c.nl), Cat>> \o MLP(From(P, 2), c.nl)
    [] c.kind = "bnlate" -> MLPBN(<<P[1]>>, c.nl, c.nin, TRUE) \o <<Nl(c.nl), Cat>> \o MLP(From(P, 2), c.nl)
    [] c.kind = "lstmsq" -> Lstm(P, "relu")
    [] c.kind = "lstmsa" -> <<Cat>> \o Lstm(P, c.nl)
    \* body of the quadratic Q-functions
    [] c.kind = "quad" -> Hid(P, 1, c.h, "relu", FALSE, 0)
    [] OTHER -> MLPBN(SubSeq(P, 1, c.h), "relu", c.nin, FALSE)
IsBN(c) == c.kind \in {"mlpbn", "bnsa", "bnlate", "bnquad"}

\* batch statistics of column j
ColMean(X, j) == Sum([k \in 1..Len(X) |-> X[k][j]]) \div Len(X)
ColVar(X, j) == LET s == Sum([k \in 1..Len(X) |-> X[k][j]])
                    B == Len(X)
                    d(k) == B * X[k][j] - s
                IN Sum([k \in 1..B |-> Mul(d(k), d(k)) \div B]) \div (B * B)
Norm(x, m, v) == IF v = 0 THEN 0 ELSE Div(x - m, Sqrt(v))
\* running statistics S: one [m, v] per batch norm
BnOut(X, s, train) ==
  LET w == Len(X[1])
      m == IF train THEN Now([j \in 1..w |-> ColMean(X, j)]) ELSE s.m
      v == IF train THEN Now([j \in 1..w |-> ColVar(X, j)]) ELSE s.v
  IN [k \in 1..Len(X) |-> [j \in 1..w |-> Norm(X[k][j], m[j], v[j])]]
BnStat(X, s) ==
  LET w == Len(X[1])
      B == Len(X)
  IN [m |-> Now([j \in 1..w |-> Frac(s.m[j], 9, 10) + ColMean(X, j) \div 10]),
      v |-> Now([j \in 1..w |-> Frac(s.v[j], 9, 10) + Frac(ColVar(X, j), B, B - 1) \div 10])]
ApplyL(l, X, A, S, train) ==
  CASE l.t = "lin" -> [k \in 1..Len(X) |-> [j \in 1..Len(l.W) |-> Dot(l.W[j], X[k]) + l.b[j]]]
    [] l.t = "relu" -> MapM(Relu, X)
    [] l.t = "tanh" -> MapM(Tanh, X)
    [] l.t = "cat" -> [k \in 1..Len(X) |-> X[k] \o A[k]]
    [] OTHER -> BnOut(X, S[l.k], train)
Apply(l, X, A, S, train) == NowM(ApplyL(l, X, A, S, train))
\* inputs of every layer, and the output
RECURSIVE Acts(_, _, _, _, _)
Acts(L, X, A, S, train) ==
  IF L = <<>> THEN <<X>>
  ELSE <<X>> \o Acts(Tail(L), Apply(L[1], X, A, S, train), A, S, train)
\* training-mode calls move the running statistics
NewStat(L, acts, S) ==
  [k \in 1..Len(S) |->
     IF \E j \in 1..Len(L) : L[j].t = "bn" /\ L[j].k = k
     THEN BnStat(acts[CHOOSE j \in 1..Len(L) : L[j].t = "bn" /\ L[j].k = k], S[k]) ELSE S[k]]
\* too little variance to follow
Murky(L, acts, S, train) ==
  \E j \in 1..Len(L) :
     /\ L[j].t = "bn"
     /\ \E i \in 1..Len(acts[j][1]) :
          (IF train THEN ColVar(acts[j], i) ELSE S[L[j].k].v[i])
            \in (IF \A k \in 1..Len(acts[j]) : acts[j][k][i] = acts[j][1][i] THEN 1 ELSE 0)..400
\* chain rule: G gradients of the output; <<gradient of x, gradient of a>>
Back1(l, x, y, g, S) ==
  CASE l.t = "lin" -> [i \in 1..Len(x) |-> Sum([j \in 1..Len(g) |-> Mul(l.W[j][i], g[j])])]
    [] l.t = "relu" -> [i \in 1..Len(x) |-> IF x[i] > 0 THEN g[i] ELSE 0]
    [] l.t = "tanh" -> [i \in 1..Len(x) |-> Mul(g[i], K - Mul(y[i], y[i]))]
    [] OTHER -> [i \in 1..Len(x) |-> Norm(g[i], 0, S[l.k].v[i])]
RECURSIVE Back(_, _, _, _, _)
Back(L, acts, k, g, S) ==       \* of row k
  IF L = <<>> THEN [x |-> g, a |-> <<>>]
  ELSE LET n == Len(L)
           l == L[n]
           R == SubSeq(L, 1, n - 1)
           x == acts[n][k]
       IN IF l.t = "cat"
          THEN LET r == Back(R, acts, k, SubSeq(g, 1, Len(x)), S)
               IN [x |-> r.x, a |-> SubSeq(g, Len(x) + 1, Len(g))]
          ELSE Back(R, acts, k, Now(Back1(l, x, acts[n + 1][k], g, S)), S)

\* ------------------------------------------------------------------ heads
MaxOf(q) == CHOOSE m \in Range(q) : \A z \in Range(q) : z <= m
Softmax(z) ==
  LET m == MaxOf(z)
      e == Now([j \in 1..Len(z) |-> ExpNeg(z[j] - m)])
      s == Sum(e)
  IN [j \in 1..Len(z) |-> (e[j] * 1024) \div (s \div 8)]
LinSpace(lo, hi, n) == [j \in 1..n |-> lo + ((hi - lo) * (j - 1)) \div (n - 1)]
Part(s, k, n) == SubSeq(s, (k - 1) * n + 1, k * n)
\* distributional: atoms of every action
Dists(y, na, nz) == [a \in 1..na |-> Softmax(Part(y, a, nz))]
\* bounded by tanh
Bound(x, lo, hi) == Mul(Tanh(x), (hi - lo) \div 2) + (hi + lo) \div 2
DBound(x, lo, hi) == Mul(K - Mul(Tanh(x), Tanh(x)), (hi - lo) \div 2)
\* lower triangular matrix: diagonal d, entries below it row by row
LT(d, o) == NowM([i \in 1..Len(d) |-> [j \in 1..Len(d) |->
              IF i = j THEN d[i] ELSE IF j > i THEN 0 ELSE o[((i - 1) * (i - 2)) \div 2 + j]]])
Gram(T) == NowM([i \in 1..Len(T) |-> [j \in 1..Len(T) |-> Dot(T[i], T[j])]])
\* quadratic Q: v - (u - mu)' P (u - mu) / 2
Quad(z, u) == LET d == Now([j \in 1..Len(u) |-> u[j] - z.mu[j]])
              IN z.v - Dot(d, [i \in 1..Len(d) |-> Dot(z.mat[i], d)]) \div 2
DQuad(z, u) == LET d == Now([j \in 1..Len(u) |-> u[j] - z.mu[j]])
               IN [i \in 1..Len(d) |-> -Dot(z.mat[i], d)]
Clip(x, lo, hi) == [j \in 1..Len(x) |->
                     LET y == IF lo = <<>> THEN x[j] ELSE Max2(x[j], lo[j])
                     IN IF hi = <<>> THEN y ELSE Min2(y, hi[j])]
\* heads of the quadratic Q-functions on features y
QuadOf(c, P, y) ==
  LET H(k) == Now([j \in 1..Len(P[c.h + k].W) |-> Dot(P[c.h + k].W[j], y) + P[c.h + k].b[j]])
      m == H(2)
      hd == H(3)
      d == Now([j \in 1..Len(m) |-> Exp(hd[j])])
  IN [v |-> H(1)[1],
      mu |-> IF c.sc THEN [j \in 1..Len(m) |-> Bound(m[j], c.lo[j], c.hi[j])] ELSE m,
      mat |-> Gram(LT(d, IF Len(m) = 1 THEN <<>> ELSE H(4)))]
\* dueling: advantages A relative to their mean, plus the value
Duel(A, v) == LET m == Sum(A) \div Len(A) IN [j \in 1..Len(A) |-> A[j] - m + v]
\* for atoms: A[a][z], V[z]
DuelZ(A, V) == [a \in 1..Len(A) |->
                 Softmax([z \in 1..Len(V) |-> A[a][z] - Sum([b \in 1..Len(A) |-> A[b][z]]) \div Len(A) + V[z]])]
\* mellowmax with omega = w / 4 of a row, and its gradient
Mellow(x, w) ==
  LET z == [j \in 1..Len(x) |-> Frac(x[j], w, 4)]
      m == MaxOf(z)
      s == Sum([j \in 1..Len(z) |-> ExpNeg(z[j] - m)])
      r == Frac(m + LnS(s, 17) - Ln(Len(x) * K), 4, Abs(w))
  IN IF w < 0 THEN -r ELSE r
DMellow(x, w) == Softmax([j \in 1..Len(x) |-> Frac(x[j], w, 4)])
\* gradient that is inverted at the borders of [lo, hi]; g < 0 increases x
Invert(x, g, lo, hi) == Frac(Mul(g, IF g < 0 THEN hi - x ELSE x - lo), 8, (hi - lo) \div 1024)
Col(X, j) == [k \in 1..Len(X) |-> X[k][j]]
Transp(X) == [j \in 1..Len(X[1]) |-> Col(X, j)]
=====================================================================================
