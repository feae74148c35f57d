------------------------------ MODULE WeightsMC ------------------------------
(* The annealing of beta as an accumulator, against its closed form.         *)
EXTENDS Weights
CONSTANTS B0s, Steps, T
VARIABLES c, t, acc
Init == /\ c \in [b0 : B0s, bs : Steps] /\ t = 0
        /\ acc = c.b0 * (IF c.bs = 0 THEN 1 ELSE c.bs)
Next == /\ t < T /\ t' = t + 1 /\ c' = c
        /\ acc' = IF c.bs = 0 THEN acc
                  ELSE Min2(BetaDen(c), acc + (16 - c.b0))
Spec == Init /\ [][Next]_<<c, t, acc>>
Closed == acc = BetaNum(c, t)
AtMostOne == acc <= BetaDen(c)
ReachesOne == c.bs > 0 /\ t >= c.bs => acc = BetaDen(c)
Constant == c.bs = 0 => acc = c.b0
==============================================================================
