-------------------------------- MODULE Stat --------------------------------
(* Frequency tests in integer arithmetic.  count of N trials of an event of *)
(* probability num/den deviates from N*num/den by more than 6.5 standard    *)
(* deviations (plus slack for small expectations) with probability < 1e-10. *)
EXTENDS Integers
SAbs(a) == IF a < 0 THEN -a ELSE a
\* N * num must stay below 2^31
Expect(N, num, den) == (N * num) \div den
\* variance <= expectation: (d-1)^2 <= 42 * (x + 1) + 40
FreqOK(count, N, num, den) ==
  LET x == Expect(N, num, den)
      d == Expect(N, den - num, den)
      v == 1 + IF x < d THEN x ELSE d
      diff == SAbs(count - x)
      z == IF diff > 1 THEN diff - 1 ELSE 0
  IN IF num = 0 THEN count = 0
     ELSE IF num = den THEN count = N
     ELSE z < 40000 /\ z * z <= 42 * v + 60
=============================================================================
