--------------------------- MODULE SameRunMC ----------------------------
(* Programs that draw from two global sources (random, numpy.random) and   *)
(* may keep one of their own; a process starts with its sources anywhere.  *)
(* Parallel programs start workers that inherit the sources of the parent. *)
(*  Bug "none"; "one": seeding forgets a source; "own": the program draws  *)
(*  from a source of its own that seeding does not know; "order": workers  *)
(*  are not seeded; "const": seeding ignores the seed                      *)
EXTENDS SameRun, TLC
CONSTANTS Bug, Par, Steps
VARIABLES src, s, bad, ph, runs, acc
vars == <<src, s, bad, ph, runs, acc>>
Q == 0..6
Nx(x) == ((3 * x) + 2) % 7
Cf == [tol |-> 0, differs |-> TRUE, own |-> Par]
E0 == [op |-> "", seed |-> 0, d |-> <<>>, exc |-> ""]
Judge(e) == bad' = RunFails(Cf, s, e) /\ s' = RunPost(Cf, s, e)
Init == /\ src = [a |-> 0, b |-> 0, own |-> 0] /\ s = RunInit(Cf) /\ bad = {} /\ ph = -1 /\ runs = 0 /\ acc = 0
\* a new process: anything may have been drawn before
Begin == /\ ph = -1 /\ runs < 3
         /\ \E a \in Q, b \in Q, o \in {0, 3} : \E seed \in {1, 2} :
              LET k == IF Bug = "const" THEN 1 ELSE seed IN
              /\ src' = [a |-> k, b |-> IF Bug = "one" THEN b ELSE k + 1, own |-> IF Bug = "own" THEN o ELSE k]
              /\ Judge([E0 EXCEPT !.op = "begin", !.seed = seed])
              /\ acc' = 0
         /\ ph' = 0 /\ runs' = runs + 1
Draw == /\ ph >= 0 /\ ph < Steps /\ ~Par
        /\ LET p == ph % 3
               x == IF p = 0 THEN src.a ELSE IF p = 1 THEN src.b ELSE src.own
               v == ((acc * 7) + x) % 101
           IN /\ src' = [src EXCEPT !.a = IF p = 0 THEN Nx(@) ELSE @, !.b = IF p = 1 THEN Nx(@) ELSE @,
                                    !.own = IF p = 2 THEN Nx(@) ELSE @]
              /\ acc' = v /\ Judge([E0 EXCEPT !.op = "step", !.d = <<v>>])
        /\ ph' = ph + 1 /\ UNCHANGED runs
\* worker ph: its seed is drawn by the parent before it starts
Work == /\ ph >= 0 /\ ph < Steps /\ Par
        /\ src' = IF Bug = "order" THEN src ELSE [src EXCEPT !.a = Nx(@)]
        /\ Judge([E0 EXCEPT !.op = "step", !.d = <<(2 * src.a) + 1>>])
        /\ ph' = ph + 1 /\ UNCHANGED <<runs, acc>>
End == ph = Steps /\ Judge([E0 EXCEPT !.op = "end"]) /\ ph' = -1 /\ UNCHANGED <<src, runs, acc>>
Next == bad = {} /\ (Begin \/ Draw \/ Work \/ End)
Sound == bad = {}
=========================================================================
