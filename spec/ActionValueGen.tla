-------------------------- MODULE ActionValueGen --------------------------
(* Batches of action values (with many ties) and successive slices.        *)
EXTENDS Util, TLC, Json
CONSTANTS MaxB
VARIABLES b
Init == b = <<>>
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
D(k, S) == One(IF k >= 0 THEN S ELSE {})
Kinds == {"discrete", "dist", "quant", "quad", "single"}
Simplex == {t \in [1..3 -> 0..4] : t[1] + t[2] + t[3] = 4}
Split(w) == D(w, Simplex)
Row(kind, na, nt, k, hi) ==
  CASE kind = "discrete" -> [a \in 1..na |-> D(a + k, -hi..hi)]
    [] kind = "dist" -> [a \in 1..na |-> Split(a + k)]
    [] kind = "quant" -> [t \in 1..nt |-> [a \in 1..na |-> D(a + k + t, -hi..hi)]]
    [] OTHER -> [mu |-> [a \in 1..na |-> D(a + k, -5..5)],
                 dg |-> [a \in 1..na |-> D(a + k, 1..3)],
                 v |-> D(k, -3..3)]
Next ==
  /\ Len(b) < 1
  /\ \E kind \in {One(Kinds)}, n \in {One(1..MaxB)}, na \in {One(1..4)},
        nt \in {One({1, 2, 4})}, hi \in {One(0..4)} :
        b' = <<[kind |-> kind, na |-> na, nt |-> nt,
                z |-> One({<<-1, 0, 1>>, <<0, 1, 2>>, <<-2, 1, 3>>}),
                rows |-> [k \in 1..n |-> Row(kind, na, nt, k, hi)],
                off |-> One({0, 1}), bound |-> One(0..3),
                lo |-> [a \in 1..na |-> D(a, -4..0)], hi |-> [a \in 1..na |-> D(a, 0..4)],
                slices |-> [j \in 1..3 |-> [how |-> D(j, 1..4), x |-> D(j, 0..6), y |-> D(j, 0..6)]]]>>
Emit == Len(b) = 1 => PrintT(<<"B", ToJson(b[1])>>)
==========================================================================
