----------------------------------- MODULE NetsMC -----------------------------------
(* Laws of the functions of Nets: derivatives match differences, quadratic values are *)
(* largest at mu and not above v, dueling advantages average to the value, mellowmax  *)
(* lies between mean and maximum, normalization is undone by its statistics.          *)
EXTENDS Nets, TLC
CONSTANTS H
VARIABLES m, x
Ws == {j * 4096 : j \in -H..H}
Xs == {j * 2048 : j \in {-3, 1, 4}}
Ms == {[f |-> f, W |-> <<<<a, b>>, <<c, a>>>>, V |-> <<<<c, b>>>>, b |-> <<b, c>>] :
         f \in {"relu", "tanh"}, a \in Ws, b \in Ws, c \in Ws}
Init == m \in Ms /\ x = <<>>
Next == x = <<>> /\ x' \in [1..2 -> Xs] /\ UNCHANGED m
Go == x # <<>>
L == <<[t |-> "lin", W |-> m.W, b |-> m.b], [t |-> m.f], [t |-> "lin", W |-> m.V, b |-> <<0>>]>>
Y(z) == LET a == Acts(L, <<z>>, <<<<>>>>, <<>>, FALSE) IN a[Len(a)][1][1]
d == 256
Slope == Go =>
  LET g == Back(L, Acts(L, <<x>>, <<<<>>>>, <<>>, FALSE), 1, <<K>>, <<>>).x
      \* a kink between x and x + d: no derivative to compare with
      pre(z, j) == Dot(m.W[j], z) + m.b[j]
  IN \A i \in 1..2 :
       LET x2 == [x EXCEPT ![i] = @ + d] IN
       (m.f = "tanh" \/ \A j \in 1..2 : pre(x, j) > 0 <=> pre(x2, j) > 0) =>
         Near((Y(x2) - Y(x)) * (K \div d), g[i], 500)
LowT == Go =>
  LET T == LT(<<x[1], x[2], K>>, <<m.b[1], m.b[2], x[1]>>)
      z == [mu |-> <<x[1], x[2], 0>>, mat |-> Gram(T), v |-> m.b[1]]
  IN /\ \A i, j \in 1..3 : z.mat[i][j] = z.mat[j][i]
     /\ \A u \in {<<a, b, a>> : a, b \in Xs} : Quad(z, u) <= z.v + 12
     /\ Quad(z, z.mu) = z.v
Dueling == Go => LET q == Duel(<<x[1], x[2], m.b[1]>>, m.b[2])
                 IN Near(Sum(q) \div 3, m.b[2], 3) /\ q[1] - q[2] = x[1] - x[2]
Mellows == Go => \A w \in {1, 4, 20} :
             /\ Mellow(x, w) >= (Sum(x) \div 2) - 30 /\ Mellow(x, w) <= MaxOf(x) + 30
             /\ Near(Mellow(x, -w), -Mellow(<<-x[1], -x[2]>>, w), 40)
Bounded == Go => \A j \in 1..2 : LET y == Bound(x[j], -4096, 12288) IN y >= -4096 /\ y <= 12288
Normal == Go => LET X == <<<<x[1]>>, <<x[2]>>, <<m.b[1]>>>>
                    y == BnOut(X, <<>>, TRUE)
                IN ColVar(X, 1) > 2000 => Near(ColMean(y, 1), 0, 60) /\ Near(ColVar(y, 1), K, 160)
=====================================================================================
