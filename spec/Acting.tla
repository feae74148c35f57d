------------------------------------ MODULE Acting ----------------------------------
(* How agents choose actions.  Every observation o stands for a row of the model's    *)
(* output: action values (mode "greedy"), an action (mode "point") or a distribution. *)
(* A behaviour agent hands its choice to an explorer, once per env and step, with the *)
(* number of steps it was trained on; evaluation never asks the explorer.             *)
EXTENDS Distrib
\* c.rows: what the model puts out for observation 1, 2, ...; phi shifts observations
Seen(c, o) == IF c.roll THEN (o % Len(c.rows)) + 1 ELSE o
Row(c, o) == c.rows[Seen(c, o)]
Greedy(c) == c.mode \in {"greedy", "point"}
\* actions a deterministic choice may take
Best(c, o) == CASE c.mode = "greedy" -> {a - 1 : a \in ArgMaxes(Row(c, o))}
                [] c.mode = "cat" -> {a - 1 : a \in ArgMaxes(Row(c, o).rows[1].z)}
                [] OTHER -> {}
Centre(c, o) == CASE c.mode = "point" -> Q4(Row(c, o))
                  [] c.mode = "squ" -> [k \in 1..Len(Row(c, o).rows[1].m) |-> Tanh(Row(c, o).rows[1].m[k])]
                  [] OTHER -> Row(c, o).rows[1].m
Discrete(c) == c.mode \in {"greedy", "cat"}
Close(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(b) : Abs(a[k] - b[k]) <= 6
IsBest(c, o, a) == IF Discrete(c) THEN a[1] \in Best(c, o) ELSE Close(a, Centre(c, o))
\* an action that a distribution can produce
Legal(c, o, a) == IF Discrete(c) THEN a[1] >= 0 /\ a[1] < c.n
                  ELSE Len(a) = c.n /\ (c.mode = "squ" => \A k \in 1..c.n : Abs(a[k]) <= K)
=====================================================================================
