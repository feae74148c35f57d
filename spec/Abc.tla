------------------------------------- MODULE Abc ------------------------------------
(* The toy env: states 0..size, observed one-hot, shifted by the offset.               *)
EXTENDS Util
Obs(c, s) == [j \in 1..(c.size + 2) |-> IF j = s.x + s.off + 1 THEN 1 ELSE 0]
Begin(s, off) == [s EXCEPT !.x = 0, !.off = off]
\* offsets a reset may draw
Offs(c, s) == IF ~c.po THEN {0} ELSE IF c.det /\ s.eps > 0 THEN {1 - s.off} ELSE {0, 1}
\* an inner action
Act(c, s, a) ==
  IF a = s.x
  THEN IF s.x = c.size - 1
       THEN [s |-> [s EXCEPT !.x = IF c.episodic THEN c.size ELSE 0], r |-> 1, done |-> c.episodic]
       ELSE [s |-> [s EXCEPT !.x = @ + 1], r |-> 0, done |-> FALSE]
  ELSE [s |-> [s EXCEPT !.x = IF c.episodic THEN c.size ELSE @], r |-> 0, done |-> c.episodic]
=====================================================================================
