-------------------------------- MODULE FixedPointMC --------------------------------
(* The functions of FixedPoint against their laws: ln inverts exp, products and sums *)
(* agree, known values.                                                              *)
EXTENDS FixedPoint, TLC
VARIABLE x
Init == x \in {j * 517 : j \in -120..120}
Next == UNCHANGED x
A(z) == IF z < 0 THEN -z ELSE z
Inverse == (x > -50000 /\ x <= 0) => A(LnS(ExpNeg(x), 17) - x) <= 4 + (131072 \div ExpNeg(x)) * 8
Adds == \A y \in {j * 1931 : j \in -20..0} : x <= 0 =>
          A(ExpNeg(x + y) - ((ExpNeg(x) \div 8) * (ExpNeg(y) \div 8)) \div 2048) <= 60
Known == /\ A(Ln(2 * K) - 5678) <= 2 /\ A(Ln(10 * K) - 18862) <= 3 /\ A(Ln(K \div 4) + 11357) <= 3
         /\ A(ExpNeg(-K) - 48218) <= 12 /\ A(Exp(K) - 22268) <= 12 /\ A(Tanh(K) - 6239) <= 4
         /\ A(Tanh(-K) + 6239) <= 4 /\ A(Softplus(0) - 5678) <= 3 /\ A(Softplus(3 * K) - 24974) <= 4
Double == x > 0 => A(Ln(2 * x) - Ln(x) - 5678) <= 3
Products == \A y \in {3, 7, 100} : x > 0 => A(Ln(x * y) - Ln(x) - LnS(y, 0)) <= 4
Odd == A(Tanh(x) + Tanh(-x)) <= 2 /\ A(Softplus(x) - Softplus(-x) - x) <= 2
=====================================================================================
