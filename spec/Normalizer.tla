---------------------------- MODULE Normalizer ----------------------------
(* Running normalization statistics.  A normalizer is the record            *)
(*   [n |-> number of samples learned, S |-> sums, Q |-> sums of squares]   *)
(* (one entry per component): the statistics are a function of the multiset *)
(* of samples, so they cannot depend on how they were split into batches.   *)
EXTENDS Integers, Sequences
NNew(D) == [n |-> 0, S |-> [k \in 1..D |-> 0], Q |-> [k \in 1..D |-> 0]]
RECURSIVE NSum(_, _), NSumSq(_, _)
NSum(xs, k) == IF xs = <<>> THEN 0 ELSE Head(xs)[k] + NSum(Tail(xs), k)
NSumSq(xs, k) == IF xs = <<>> THEN 0
                 ELSE Head(xs)[k] * Head(xs)[k] + NSumSq(Tail(xs), k)
\* learning stops once `until` samples (>= 0) were learned; a batch is learned whole
NLearns(s, until) == until < 0 \/ s.n < until
NExp(s, until, xs) ==
  IF ~NLearns(s, until) THEN s
  ELSE [n |-> s.n + Len(xs),
        S |-> [k \in DOMAIN s.S |-> s.S[k] + NSum(xs, k)],
        Q |-> [k \in DOMAIN s.Q |-> s.Q[k] + NSumSq(xs, k)]]
\* mean = NMeanN / NDen; variance = NVarN / NDen^2 (0 and 1 before any sample)
NDen(s) == IF s.n = 0 THEN 1 ELSE s.n
NMeanN(s, k) == s.S[k]
NVarN(s, k) == IF s.n = 0 THEN 1 ELSE s.n * s.Q[k] - s.S[k] * s.S[k]
===========================================================================
