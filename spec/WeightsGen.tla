------------------------------ MODULE WeightsGen ------------------------------
EXTENDS Util, TLC, Json
CONSTANTS NR
VARIABLES h, c
Init == /\ h = <<>>
        /\ c \in [anum : {0, 2, 3, 4, 6}, b0 : {0, 4, 6, 16}, bs : {0, 1, 3, 5},
                  emin : {-99, 0, 3}, emax : {99, 10, 7},
                  normarg : {"memory", "batch", "true", "none"},
                  kind : {"replay", "pepisodic"}, m : {2, 4, 7}, epsi : {1, 2}]
Next == /\ Len(h) < NR /\ c' = c
        /\ \E k \in 1..c.m, a \in 1..9, b \in 1..9, d \in 1..9 :
             h' = Append(h, [k |-> IF Len(h) = 0 THEN c.m ELSE k,
                             errs |-> <<a, b, d>>])
Emit == Len(h) = NR => PrintT(<<"B", ToJson([c |-> c, rounds |-> h])>>)
===============================================================================
