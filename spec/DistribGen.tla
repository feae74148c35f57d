--------------------------------- MODULE DistribGen ---------------------------------
(* Random batches of distributions, made directly or by a policy, and operations.     *)
EXTENDS Util, TLC, Json
VARIABLES b
Init == b = <<>>
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
D(k, S) == One(IF k >= 0 THEN S ELSE {})
Cats == {"softmax", "softpol"}
Mels == {"mellow", "mellowpol"}
Gaus == {"gauss", "gausspol", "gausssic", "gaussfix", "gausshead"}
Group(g) == CASE g = 1 -> Cats [] g = 2 -> Mels [] g = 3 -> Gaus [] g = 4 -> {"squash"}
              [] OTHER -> {"det", "detpol"}
Vars == {2048, 4096, 6000, 8192, 16384, 30000}
\* narrow for Gaussians: tiny variances are beyond the precision of FixedPoint
Row(g, n, j, wide) == [a \in 1..n |-> D(a + j, IF g = 2 THEN {2 * v : v \in -3..3}
                                      ELSE IF g = 4 THEN -4..4
                                      ELSE IF wide /\ g # 3 THEN -12..12 ELSE -4..4)]
Spec(g, n, B, j) ==
  [via |-> D(j, Group(g)),
   rows |-> [k \in 1..B |-> Row(g, n, k + j, D(k + j, BOOLEAN))],
   vrows |-> [k \in 1..B |-> [a \in 1..n |-> D(a + k + j, Vars)]],
   beta2 |-> D(j, {1, 2, 4}), mp |-> D(j, {0, 0, 1, 2, 4}), w2 |-> D(j, {1, 2, 4, 8}),
   hid |-> [h \in 1..D(j, 0..2) |-> [a \in 1..n |-> (IF g = 2 THEN 2 ELSE 1) * D(a + h + j, -3..3)]],
   relu |-> D(j, BOOLEAN), bo |-> [a \in 1..n |-> IF g = 2 THEN 0 ELSE D(a + j, -3..3)],
   vb |-> [a \in 1..n |-> D(a + j, -2..6)], vk |-> [a \in 1..n |-> D(a + j, Vars)],
   sph |-> D(j, BOOLEAN), minv |-> D(j, {0, 1024, 8192}), vexp |-> D(j, BOOLEAN),
   bound |-> D(j, BOOLEAN), lo |-> [a \in 1..n |-> D(a + j, -8..0)],
   hi |-> [a \in 1..n |-> D(a + j, 1..8)], asvar |-> D(j, BOOLEAN), dflt |-> D(j, 0..3)]
Ops == {"look", "look", "look2", "kl", "kl2", "sample", "swlp", "copy", "slice", "mutate"}
Next ==
  /\ Len(b) < 1
  /\ \E g \in {One({1, 1, 2, 3, 3, 3, 4, 5})}, n \in {One(1..4)}, B \in {One(1..4)} :
     LET m == IF g \in {1, 2} THEN Max2(n, 2) ELSE Min2(n, 3)
     IN b' = <<[g |-> g, n |-> m, B |-> B, d |-> [j \in 1..2 |-> Spec(g, m, B, j)],
                ops |-> [j \in 1..8 |->
                          [op |-> D(j, Ops), h |-> D(j, 0..9), g |-> D(j, 0..9), peek |-> D(j, BOOLEAN),
                           how |-> D(j, 1..4), s |-> D(j, 0..6), t |-> D(j, 0..6),
                           x |-> [k \in 1..B |-> [a \in 1..m |->
                                    D(a + k + j, IF g = 4 THEN -7..7 ELSE -10..10)]]]]]>>
Emit == Len(b) = 1 => PrintT(<<"B", ToJson(b[1])>>)
=====================================================================================
