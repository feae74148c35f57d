----------------------------- MODULE SamplingMC -----------------------------
(* Drawing one position after another among those not drawn yet: the model   *)
(* of a sample.  Every draw sequence of length n is reachable, none repeats  *)
(* a position, and each position occurs in equally many of them.             *)
EXTENDS Util
CONSTANTS M, K
VARIABLE s
Init == s = <<>>
Next == Len(s) < K /\ \E x \in (1..M) \ Range(s) : s' = Append(s, x)
Spec == Init /\ [][Next]_s
NoRepeat == Distinct(s)
Complete == Len(s) <= K /\ (Len(s) = K \/ (1..M) \ Range(s) # {})
=============================================================================
