--------------------------- MODULE ActionValueMC ---------------------------
(* Consequences of the definitions, for all small rows.                     *)
EXTENDS ActionValue, TLC
CONSTANTS Vals, NA
MVals == {-2, -1, 0, 1, 3}
VARIABLES q, a2, mode, r, u
vars == <<q, a2, mode, r, u>>
Init == \/ /\ mode = "disc" /\ q \in [1..NA -> Vals] /\ a2 \in 1..NA
           /\ r = <<>> /\ u = <<>>
        \/ /\ mode = "quad" /\ q = <<>> /\ a2 = 1
           /\ r \in [mu : [1..2 -> {-4, 0, 3}], p : {<<<<1, 0>>, <<0, 2>>>>, <<<<3, 0>>, <<0, 1>>>>},
                     v : {0, 1}, haslo : BOOLEAN, hashi : BOOLEAN,
                     lo : {<<-2, -1>>}, hi : {<<2, 1>>}]
           /\ u \in [1..2 -> -6..6]
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Adv == mode = "disc" =>
  /\ q[a2] - MaxOf(q) <= 0
  /\ (q[a2] - MaxOf(q) = 0) <=> a2 \in ArgMax(q)
  /\ SoftNum(q) <= MaxOf(q) * SoftDen(q)
  /\ SoftNum(q) * NA >= Sum(q) * SoftDen(q)
InBounds(x) == \A k \in 1..2 : (r.haslo => x[k] >= r.lo[k]) /\ (r.hashi => x[k] <= r.hi[k])
QuadMax == mode = "quad" =>
  /\ InBounds(QuadGreedy(r))
  /\ InBounds(u) => QuadVal(r, u) <= QuadVal(r, QuadGreedy(r))
  /\ (~r.haslo /\ ~r.hashi) => QuadVal(r, QuadGreedy(r)) = 8 * r.v
===========================================================================
