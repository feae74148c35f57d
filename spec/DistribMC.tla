---------------------------------- MODULE DistribMC ---------------------------------
(* Laws of the distributions of Distrib: probabilities add up and keep their floor,   *)
(* entropies lie between 0 and ln n, divergences are not negative and vanish between  *)
(* equals, log-probabilities are concave at the mode, mellowmax expectations agree    *)
(* and derivatives match differences.                                                 *)
EXTENDS Distrib, TLC
CONSTANTS H, Full
VARIABLES d, e
Vals == {5 * j : j \in -H..H}
Softs == {[via |-> "softmax", rows |-> <<x>>, beta2 |-> b, mp |-> m] :
            x \in [1..3 -> Vals], b \in {1, 2, 4}, m \in {0, 2, 4}}
Mels == {[via |-> "mellow", rows |-> <<x>>, w2 |-> w] : x \in [1..3 -> Vals], w \in {1, 2, 8}}
Gaus == {[via |-> "gauss", rows |-> <<x>>, vrows |-> <<v>>] :
           x \in [1..2 -> Vals], v \in [1..2 -> {2048, 8192, 20000}]}
None == [kind |-> "none", rows |-> <<>>]
Init == d \in {Make(c) : c \in Softs \cup Mels \cup Gaus} /\ e = None
Next == /\ e = None /\ UNCHANGED d
        /\ e' \in {Make(c) : c \in IF d.kind = "gau" THEN Gaus
                                   ELSE IF Full THEN Softs ELSE {s \in Softs : s.beta2 = 2 /\ s.mp # 4}}
R == d.rows[1]
Q == e.rows[1]
Near(a, b, t) == Abs(a - b) <= t
First == e = None
Cat == d.kind \in {"cat", "mel"}
AddUp == (First /\ Cat) =>
           /\ Near(Sum(R.p), 131072, 12) /\ \A k \in 1..3 : R.p[k] >= 0
           /\ \A k \in 1..3 : R.p[k] >= (((32 - R.s) * 131072) \div 96) - 12
           /\ \A k \in 1..3 : R.p[k] > 200 => Near(LnS(R.p[k], 17), R.lp[k], 200)
Entropies == (First /\ Cat) => CatEntropy(R) >= -10 /\ CatEntropy(R) <= Ln(3 * K) + 20
Modes == (First /\ Cat) => \A k \in ArgMaxes(R.z), j \in 1..3 : R.p[k] >= R.p[j]
Divergence == e # None =>
  LET kl == IF Cat THEN CatKL(R, Q) ELSE GauKL(R, Q)
  IN kl >= -20 /\ (R = Q => kl <= 20)
MellowMean == (First /\ d.kind = "mel") =>
  \E w2 \in {1, 2, 8}, x \in [1..3 -> Vals] :
     /\ Near(Expect(R.p, Q4(x)), Mellow(Q4(x), w2), 40)
     /\ \A i, j, k \in 1..3 : R.z[i] > R.z[j] => x[i] > x[j]
\* derivative of ln p[a] in direction k against a difference
Slope == (First /\ d.kind = "cat" /\ R.s < 32) => Near(Sum(DLogp(R, 1)), 0, 100)
EntSlope == (First /\ d.kind = "cat") => Near(Sum(DEntropy(R)), 0, 60)
Peak == (First /\ d.kind = "gau") => \A x \in [1..2 -> Vals] :
          /\ GauLogp(R, Q4(x)) <= GauLogp(R, R.m)
          /\ Near(GauLogp(R, R.m) + GauEntropy(R), K, 20)
=====================================================================================
