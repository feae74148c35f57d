----------------------------- MODULE SamplingGen -----------------------------
(* Scenarios: buffer size, sample size, and the history before (evictions,   *)
(* pops) that rotates the representation.                                    *)
EXTENDS Util, TLC, Json
CONSTANT Ms
VARIABLE h
Kinds == {"queue", "uniform", "episodic_t", "episodes"}
Init == h \in [kind : Kinds, m : Ms, n : {1, 2, 3, 5, 9, 20}, pre : {0, 1, 7},
               pops : {0, 3}]
Next == FALSE /\ h' = h
Feasible == h.n <= h.m /\ (h.kind # "queue" => h.pops = 0)
            /\ (h.kind = "episodes" => h.pre = 0)
Emit == Feasible => PrintT(<<"B", ToJson(h)>>)
=============================================================================
