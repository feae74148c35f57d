---------------------------- MODULE RecLinks ----------------------------
(* Batched recurrent states as values: a state stands for one history of  *)
(* inputs per row.  Outputs are functions of histories.                    *)
(*  c.ref  <<[h, y], ...>>: what the layers compute for whole sequences    *)
(*  s.none  the state is None (any number of rows, no inputs yet)          *)
(*  s.rows  histories;  s.slots  saved states [none, rows]                 *)
(*  s.memo  outputs seen so far, by history                                *)
EXTENDS Util
Near(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
Hist(s, e, i) == IF s.none THEN <<>> ELSE s.rows[i]
\* every (history, output) pair of a forward call
Pairs(s, e) ==
  Flat([i \in 1..Len(e.x) |->
        [t \in 1..Len(e.x[i]) |-> [h |-> Hist(s, e, i) \o SubSeq(e.x[i], 1, t), y |-> e.y[i][t]]]])
Agree(c, memo, p) ==
  /\ \A k \in 1..Len(c.ref) : c.ref[k].h = p.h => Near(c.ref[k].y, p.y, c.tol)
  /\ p.h \in DOMAIN memo => Near(memo[p.h], p.y, c.tol)
RLInit(c) == [none |-> TRUE, rows |-> <<>>, slots |-> <<>>, memo |-> <<>>]
Learn(memo, ps) == [h \in (DOMAIN memo) \cup {ps[k].h : k \in 1..Len(ps)} |->
                     IF h \in DOMAIN memo THEN memo[h] ELSE ps[CHOOSE k \in 1..Len(ps) : ps[k].h = h].y]
\* rows of a saved state put into a batch: None becomes one fresh row
RowsOf(z) == IF z.none THEN << <<>> >> ELSE z.rows
RLPost(c, s, e) ==
  CASE e.op = "fwd" ->
         [s EXCEPT !.none = FALSE,
                   !.rows = [i \in 1..Len(e.x) |-> Hist(s, e, i) \o e.x[i]],
                   !.memo = Learn(@, Pairs(s, e))]
    [] e.op = "mask" ->
         IF s.none THEN s
         ELSE [s EXCEPT !.rows = [i \in 1..Len(@) |-> IF i - 1 \in Range(e.idx) THEN <<>> ELSE @[i]]]
    [] e.op = "get" ->
         [s EXCEPT !.slots = Append(@, IF s.none THEN [none |-> TRUE, rows |-> <<>>]
                                       ELSE [none |-> FALSE, rows |-> [k \in 1..Len(e.idx) |-> s.rows[e.idx[k] + 1]]])]
    [] e.op = "concat" ->
         [s EXCEPT !.none = FALSE,
                   !.rows = Flat([k \in 1..Len(e.idx) |->
                              IF e.idx[k] = 0 THEN << <<>> >> ELSE RowsOf(s.slots[e.idx[k]])])]
    [] e.op = "drop" -> [s EXCEPT !.none = TRUE, !.rows = <<>>]
    [] OTHER -> s
RLFails(c, s, e) ==
  IF e.exc # "" THEN {"the call succeeds"}
  ELSE CASE e.op = "fwd" ->
              C("one output per input",
                /\ Len(e.y) = Len(e.x)
                /\ \A i \in 1..Len(e.x) : i <= Len(e.y) => Len(e.y[i]) = Len(e.x[i]))
              \cup (IF Len(e.y) = Len(e.x) /\ \A i \in 1..Len(e.x) : Len(e.y[i]) = Len(e.x[i])
                    THEN C("every output is that of the row's history of inputs since its initial state",
                           \A k \in 1..Len(Pairs(s, e)) : Agree(c, s.memo, Pairs(s, e)[k]))
                    ELSE {})
         [] OTHER -> {}
=========================================================================
