--------------------------- MODULE NormalizerMC ---------------------------
(* The incremental update of the code, in exact rational arithmetic,       *)
(* refines the statistics of all samples for every split into batches.     *)
EXTENDS Normalizer, FiniteSets, TLC
CONSTANTS Vals, MaxN, MaxB, Until
U == IF Until = 99 THEN -1 ELSE Until
VARIABLES s, m, v, cnt, all
vars == <<s, m, v, cnt, all>>
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(a, b) == LET g == Gcd(Abs(a), Abs(b)) IN <<a \div g, b \div g>>
Add(p, q) == Norm(p[1] * q[2] + q[1] * p[2], p[2] * q[2])
Sub(p, q) == Norm(p[1] * q[2] - q[1] * p[2], p[2] * q[2])
Mul(p, q) == Norm(p[1] * q[1], p[2] * q[2])
Batches == UNION {[1..k -> Vals] : k \in 1..MaxB}
RECURSIVE Tot(_), TotSq(_)
Tot(b) == IF b = <<>> THEN 0 ELSE Head(b) + Tot(Tail(b))
TotSq(b) == IF b = <<>> THEN 0 ELSE Head(b) * Head(b) + TotSq(Tail(b))
Init == /\ s = NNew(1) /\ m = <<0, 1>> /\ v = <<1, 1>> /\ cnt = 0 /\ all = <<>>
Learn(b) ==
  LET k == Len(b)
      c == cnt + k
      rate == Norm(k, c)
      mx == Norm(Tot(b), k)
      vx == Norm(k * TotSq(b) - Tot(b) * Tot(b), k * k)
      d == Sub(mx, m)
      m2 == Add(m, Mul(rate, d))
  IN /\ cnt' = c
     /\ m' = m2
     /\ v' = Add(v, Mul(rate, Add(Sub(vx, v), Mul(d, Sub(mx, m2)))))
Next == /\ Len(all) < MaxN
        /\ \E b \in Batches :
             /\ Len(all) + Len(b) <= MaxN
             /\ IF U < 0 \/ cnt < U
                THEN Learn(b) /\ all' = all \o b
                ELSE UNCHANGED <<cnt, m, v, all>>
             /\ s' = NExp(s, U, [j \in 1..Len(b) |-> <<b[j]>>])
Spec == Init /\ [][Next]_vars
Refines == /\ cnt = s.n
           /\ m = Norm(NMeanN(s, 1), NDen(s))
           /\ v = Norm(NVarN(s, 1), NDen(s) * NDen(s))
\* stated on the samples themselves, without sums
IsStat == cnt > 0 =>
  /\ s.n = Len(all)
  /\ \* the mean is where deviations cancel
     LET dev == [j \in 1..Len(all) |-> Sub(<<all[j], 1>>, m)]
         Fold[j \in 0..Len(all)] == IF j = 0 THEN <<0, 1>> ELSE Add(Fold[j - 1], dev[j])
         Fsq[j \in 0..Len(all)] == IF j = 0 THEN <<0, 1>>
                                   ELSE Add(Fsq[j - 1], Mul(dev[j], dev[j]))
     IN /\ Fold[Len(all)] = <<0, 1>>
        /\ Fsq[Len(all)] = Mul(v, <<cnt, 1>>)
Limit == U >= 0 => (cnt < U + MaxB)
===========================================================================
