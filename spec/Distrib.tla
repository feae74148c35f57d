---------------------------------- MODULE Distrib -----------------------------------
(* Batches of action distributions and the policies that make them.  Reals are        *)
(* integers scaled by K = 2^13 (probabilities of categories by 2^17).  A row of a     *)
(* categorical distribution is [z, p0, p, lp, s, beta]; of a Gaussian one [m, v, lv]; *)
(* of a deterministic one [m].                                                        *)
EXTENDS FixedPoint, Util
MulP(p, x) == ((x \div 1024) * p) \div 128 + ((x % 1024) * p) \div 131072
P17(e, S) == LET a == e * 8192
             IN (a \div S) * 16 + ((a % S) * 16) \div S
MaxSeq(s) == LET G[k \in 1..Len(s)] == IF k = 1 THEN s[1] ELSE Max2(G[k - 1], s[k])
             IN G[Len(s)]
ArgMaxes(s) == {k \in 1..Len(s) : s[k] = MaxSeq(s)}
\* ------------------------------------------------------------------ categorical
\* weights proportional to e^z
Weights(z) == [k \in 1..Len(z) |-> ExpNeg(z[k] - MaxSeq(z))]
CatRow(z, mp, beta) ==
  LET n == Len(z)
      w == Weights(z)
      S == Sum(w)
      p0 == [k \in 1..n |-> P17(w[k], S)]
      s == 32 - mp * n
      p == IF mp = 0 THEN p0 ELSE [k \in 1..n |-> (p0[k] * s) \div 32 + mp * 4096]
      L == MaxSeq(z) + LnS(S, 17)
  IN [z |-> z, p0 |-> p0, p |-> p, s |-> s, beta |-> beta,
      lp |-> IF mp = 0 THEN [k \in 1..n |-> z[k] - L] ELSE [k \in 1..n |-> LnS(p[k], 17)]]
Expect(p, x) == Sum([k \in 1..Len(p) |-> MulP(p[k], x[k])])
CatEntropy(r) == -Expect(r.p, r.lp)
CatKL(r, q) == Expect(r.p, [k \in 1..Len(r.lp) |-> r.lp[k] - q.lp[k]])
Scaled(r, x) == (Frac(x, r.beta, 2) * r.s) \div 32
\* derivatives with respect to the logits
SignedDiv(a, b) == IF a < 0 THEN -Div(-a, b) ELSE Div(a, b)
DLogp(r, a) == [k \in 1..Len(r.z) |->
    LET d == (IF k = a THEN 131072 ELSE 0) - r.p0[k]
    IN IF r.s = 32 THEN Frac(d, r.beta, 2) \div 16
       ELSE SignedDiv(Scaled(r, MulP(r.p0[a], d)), Max2(r.p[a], 1))]
DEntropy(r) == LET m == Expect(r.p0, r.lp)
               IN [k \in 1..Len(r.z) |-> -Scaled(r, MulP(r.p0[k], r.lp[k] - m))]
DKL(r, q) == LET d == [k \in 1..Len(r.lp) |-> r.lp[k] - q.lp[k]]
                 m == Expect(r.p0, d)
             IN [k \in 1..Len(r.z) |-> Scaled(r, MulP(r.p0[k], d[k] - m))]
\* mellowmax: (ln mean e^(omega v)) / omega with omega = w2 / 2
LogSumExp(z) == MaxSeq(z) + LnS(Sum(Weights(z)), 17)
Mellow(v, w2) == LET z == [k \in 1..Len(v) |-> (v[k] * w2) \div 2]
                 IN ((LogSumExp(z) - Ln(Len(v) * K)) * 2) \div w2
\* the inverse temperature at which the expected value is m (bisection)
TempRow(v, b) == [k \in 1..Len(v) |-> Mul(b, v[k])]
Excess(v, m, b) == Expect(Weights(TempRow(v, b)), [k \in 1..Len(v) |-> v[k] - m])
RECURSIVE Bisect(_, _, _, _)
Bisect(v, m, lo, hi) ==
  IF hi - lo <= 1 THEN lo
  ELSE LET c == (lo + hi) \div 2
       IN IF Excess(v, m, c) <= 0 THEN Bisect(v, m, c, hi) ELSE Bisect(v, m, lo, c)
MellowRow(v, w2) ==
  LET b == IF Cardinality(Range(v)) = 1 THEN 0 ELSE Bisect(v, Mellow(v, w2), 0, 10 * K)
  IN CatRow(TempRow(v, b), 0, 2)
\* --------------------------------------------------------------------- Gaussian
HalfLn2Pi == 7528
GauRow(m, v) == [m |-> m, v |-> v, lv |-> [k \in 1..Len(v) |-> Ln(v[k])]]
Quad(x, m, v) == Div(Mul(x - m, x - m), 2 * v)
GauLogp(r, x) == Sum([k \in 1..Len(x) |-> -HalfLn2Pi - r.lv[k] \div 2 - Quad(x[k], r.m[k], r.v[k])])
\* how far the log density may be off when v is off by up to 4
GauSlack(r, x) == Sum([k \in 1..Len(x) |-> LET q == Quad(x[k], r.m[k], r.v[k])
                                           IN q \div 300 + (q * 4) \div r.v[k] + 16384 \div r.v[k]])
GauEntropy(r) == Sum([k \in 1..Len(r.v) |-> HalfLn2Pi + K \div 2 + r.lv[k] \div 2])
GauKL(r, q) ==
  Sum([k \in 1..Len(r.v) |->
         (q.lv[k] - r.lv[k] + Div(r.v[k] + Mul(r.m[k] - q.m[k], r.m[k] - q.m[k]), q.v[k]) - K) \div 2])
DMean(r, x) == [k \in 1..Len(x) |-> SignedDiv(x[k] - r.m[k], r.v[k])]
DVar(r, x) == [k \in 1..Len(x) |->
                 Div(Quad(x[k], r.m[k], r.v[k]), r.v[k]) - Div(K, 2 * r.v[k])]
\* squashed by tanh: u with tanh u = y, and the sum of ln (1 - y^2)
Unsquash(y) == [k \in 1..Len(y) |-> (Ln(K + y[k]) - Ln(K - y[k])) \div 2]
LogDet(y) == Sum([k \in 1..Len(y) |-> Ln(K + y[k]) + Ln(K - y[k])])
SqLogp(r, y) == GauLogp(r, Unsquash(y)) - LogDet(y)
\* the normal distribution function
PhiTable == <<4096, 4503, 4905, 5293, 5664, 6013, 6335, 6629, 6892, 7125, 7327, 7499, 7645,
              7765, 7864, 7943, 8006, 8054, 8092, 8120, 8141, 8157, 8168, 8175, 8181, 8185,
              8187, 8189, 8190, 8191, 8191, 8192, 8192>>
PhiPos(z) == IF z >= 4 * K THEN K
             ELSE LET j == z \div 1024
                      f == z % 1024
                  IN PhiTable[j + 1] + ((PhiTable[j + 2] - PhiTable[j + 1]) * f) \div 1024
Phi(z) == IF z < 0 THEN K - PhiPos(-z) ELSE PhiPos(z)
RECURSIVE Root(_, _, _)
Root(y, lo, hi) == IF hi - lo <= 1 THEN lo
                   ELSE LET c == (lo + hi) \div 2
                        IN IF c * c <= y THEN Root(y, c, hi) ELSE Root(y, lo, c)
Sqrt(v) == IF v < 16 * K THEN Root(v * K, 0, 32768) ELSE 4 * Root((v \div 16) * K, 0, 32768)
Below(r, k, t) == Phi(SignedDiv(t - r.m[k], Sqrt(r.v[k])))
\* -------------------------------------------------------------------- policies
\* identity weights: only biases matter
Relu(s) == [k \in 1..Len(s) |-> IF s[k] < 0 THEN 0 ELSE s[k]]
Plus(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
RECURSIVE Layers(_, _, _)
Layers(h, hid, relu) ==
  IF hid = <<>> THEN h
  ELSE LET y == Plus(h, Head(hid))
       IN Layers(IF relu THEN Relu(y) ELSE y, Tail(hid), relu)
Bound(y, lo, hi) == [k \in 1..Len(y) |->
                       Mul(Tanh(y[k]), (hi[k] - lo[k]) \div 2) + (hi[k] + lo[k]) \div 2]
\* ------------------------------------------------------- what a "new" record makes
Q4(s) == [k \in 1..Len(s) |-> 2048 * s[k]]
Pre(c, x) == Layers(Q4(x), [j \in 1..Len(c.hid) |-> Q4(c.hid[j])], c.relu)
Head0(c, x) == Plus(Pre(c, x), Q4(c.bo))
MeanOf(c, x) == IF c.bound THEN Bound(Head0(c, x), Q4(c.lo), Q4(c.hi)) ELSE Head0(c, x)
Diag(c, s, k) == IF c.sph THEN s[1] ELSE s[k]
VarOf(c, x, k) ==
  CASE c.via = "gausspol" -> Softplus(Diag(c, Pre(c, x), k) + 2048 * Diag(c, c.vb, k)) + c.minv
    [] c.via \in {"gausssic", "gausshead"} ->
         LET y == 2048 * Diag(c, c.vb, k) IN IF c.vexp THEN Exp(y) ELSE Softplus(y)
    [] OTHER -> Diag(c, c.vk, k)
RowOf(c, k) ==
  LET x == c.rows[k]
      n == Len(x)
  IN CASE c.via = "softmax" -> CatRow([a \in 1..n |-> x[a] * 1024 * c.beta2], c.mp, c.beta2)
       [] c.via = "softpol" ->
            CatRow([a \in 1..n |-> (Head0(c, x)[a] * c.beta2) \div 2], c.mp, c.beta2)
       [] c.via = "mellow" -> MellowRow(Q4(x), c.w2)
       [] c.via = "mellowpol" -> MellowRow(Head0(c, x), c.w2)
       [] c.via \in {"gauss", "squash"} -> GauRow(Q4(x), c.vrows[k])
       [] c.via = "gausshead" -> GauRow(Q4(x), [a \in 1..n |-> VarOf(c, x, a)])
       [] c.via \in {"gausspol", "gausssic", "gaussfix"} ->
            GauRow(MeanOf(c, x), [a \in 1..n |-> VarOf(c, x, a)])
       [] c.via = "det" -> [m |-> Q4(x)]
       [] c.via = "detpol" -> [m |-> MeanOf(c, x)]
KindOf(via) == CASE via \in {"softmax", "softpol"} -> "cat"
                 [] via \in {"mellow", "mellowpol"} -> "mel"
                 [] via = "squash" -> "squ"
                 [] via \in {"det", "detpol"} -> "det"
                 [] OTHER -> "gau"
Make(c) == [kind |-> KindOf(c.via), rows |-> [k \in 1..Len(c.rows) |-> RowOf(c, k)]]
Pick(d, idx) == [d EXCEPT !.rows = [j \in 1..Len(idx) |-> d.rows[idx[j] + 1]]]
=====================================================================================
