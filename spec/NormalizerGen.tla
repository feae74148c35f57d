-------------------------- MODULE NormalizerGen --------------------------
(* Histories of normalizers: three objects learning, normalizing, saving,  *)
(* loading and being copied, with batches of any size.                     *)
EXTENDS Util, TLC, Json
CONSTANTS MaxOps, D, NBig
VARIABLES b, n
Init == b = <<>> /\ n = 0
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
Xs == LET big == One(1..8) = 1
          hi == One(1..8)
      IN [j \in 1..One(IF big THEN 1..NBig ELSE 1..3) |->
           [k \in 1..D |-> One(IF j > 0 THEN -hi..(IF k = 2 THEN 1 ELSE hi) ELSE {})]]
R(op) == [op |-> op, o |-> One(1..3), p |-> One(1..3), upd |-> One(1..3) > 1,
          var |-> One(1..3) = 1, how |-> One(1..3), xs |-> <<>>]
Do(op) ==
  LET r == R(op)
      x == IF op \in {"exp", "call", "inv"} THEN Xs ELSE <<>>
  IN b' = Append(b, [r EXCEPT !.xs = x])
Next == /\ Len(b) < MaxOps
        /\ n' = n
        /\ LET k == One(1..20)
           IN Do(CASE k <= 6 -> "exp" [] k <= 13 -> "call" [] k = 14 -> "inv"
                   [] k <= 16 -> "save" [] k <= 18 -> "load" [] OTHER -> "copy")
Emit == Len(b) = MaxOps => PrintT(<<"B", ToJson([b |-> b])>>)
==========================================================================
