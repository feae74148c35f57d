--------------------------------- MODULE FixedPoint ---------------------------------
(* Exponential, logarithm and friends in 32-bit integer arithmetic.  Reals are       *)
(* integers scaled by K = 2^13.                                                      *)
EXTENDS Integers, Sequences
K == 8192
Ln2 == 5678
Mul(a, b) == (a \div K) * b + ((a % K) * b) \div K
\* a * n / d for small n, d
Frac(x, n, d) == (x \div d) * n + ((x % d) * n) \div d
\* K a / b for b > 0
RECURSIVE Div(_, _)
Div(a, b) == IF b >= 262144 THEN Div(a \div 2, b \div 2)
             ELSE (a \div b) * K + ((a % b) * K) \div b
\* ln(y / 2^s), y > 0
RECURSIVE LnNorm(_, _)
LnNorm(y, e) ==   \* y = m 2^e with m in [2^14, 2^15)
  IF y >= 32768 THEN LnNorm(y \div 2, e + 1)
  ELSE IF y < 16384 THEN LnNorm(2 * y, e - 1)
  ELSE LET t == ((y - 16384) * 32768) \div (y + 16384)       \* 2^15-scaled, <= 1/3
           t2 == (t * t) \div 32768
           t3 == (t * t2) \div 32768
           t5 == (t3 * t2) \div 32768
           t7 == (t5 * t2) \div 32768
           a == t + t3 \div 3 + t5 \div 5 + t7 \div 7
       IN (2 * a) \div 4 + (e * 56783) \div 10
LnS(y, s) == LnNorm(y, 14 - s)
Ln(y) == LnS(y, 13)
\* e^x scaled by 2^17 for x <= 0 (x scaled by K), 0 below -11
RECURSIVE Half(_, _)
Half(y, n) == IF n = 0 THEN y ELSE Half(y \div 2, n - 1)
ExpNeg(x) ==
  IF x < -90000 THEN 0
  ELSE LET n == (-x) \div Ln2
           r == x + n * Ln2             \* in (-ln 2, 0]
           q == 4 * r                    \* 2^15-scaled
           P(a, d) == ((a * q) \div 32768) \div d
           a1 == q
           a2 == P(a1, 2)
           a3 == P(a2, 3)
           a4 == P(a3, 4)
           a5 == P(a4, 5)
           a6 == P(a5, 6)
       IN Half(4 * (32768 + a1 + a2 + a3 + a4 + a5 + a6), n)
\* scaled by K
Exp(x) == IF x <= 0 THEN ExpNeg(x) \div 16
          ELSE LET e == ExpNeg(-x) IN IF e <= 64 THEN 16777216 ELSE (1073741824 \div e)
Tanh(x) == IF x < 0 THEN -(((131072 - ExpNeg(2 * x)) * 8192) \div (131072 + ExpNeg(2 * x)))
           ELSE ((131072 - ExpNeg(-2 * x)) * 8192) \div (131072 + ExpNeg(-2 * x))
Softplus(x) == (IF x > 0 THEN x ELSE 0)
               + LnS(131072 + ExpNeg(IF x > 0 THEN -x ELSE x), 17)
=====================================================================================
