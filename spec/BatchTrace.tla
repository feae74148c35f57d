----------------------------- MODULE BatchTrace -----------------------------
(* batch_experiences: n-step return, discount and terminal flag per window,  *)
(* with gamma = gnum/gden; values are scaled by gden^4.                      *)
EXTENDS Util, TraceData
VARIABLES tid, i, st, bad
S0(c) == 0
Post(c, s, e) == s
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)
\* gamma^k scaled
G(e, k) == Pow(e.gnum, k) * Pow(e.gden, 4 - k)
RECURSIVE Ret(_, _, _)
Ret(e, w, k) == IF k > Len(w) THEN 0 ELSE G(e, k - 1) * w[k].r + Ret(e, w, k + 1)
\* ids of the first and last transition of window k (consecutive ids)
Lens(e) == [k \in 1..Len(e.windows) |-> Len(e.windows[k])]
First(e, k) == 1 + Sum(SubSeq(Lens(e), 1, k - 1))
Lst(e, k) == Sum(SubSeq(Lens(e), 1, k))
HasNa(e) == \A k \in 1..Len(e.windows) : Last(e.windows[k]).na
Fails(c, s, e) ==
  LET n == Len(e.windows) IN
  C("no exception is raised", e.exc = "")
  \cup (IF e.exc # "" THEN {} ELSE
  C("one entry per window", Len(e.state) = n /\ Len(e.next) = n /\ Len(e.action) = n
       /\ Len(e.rew) = n /\ Len(e.disc) = n /\ Len(e.term) = n)
  \cup C("the state is the first state of the window",
       \A k \in 1..n : e.state[k] = <<First(e, k) * e.phi>>)
  \cup C("the action is the first action of the window",
       \A k \in 1..n : e.action[k] = First(e, k))
  \cup C("the next state is the last next state of the window",
       \A k \in 1..n : e.next[k] = <<(2 * Lst(e, k) + 1) * e.phi>>)
  \cup C("the reward is the discounted sum of the window's rewards",
       \A k \in 1..n : e.rew[k] = Ret(e, e.windows[k], 1))
  \cup C("the discount is gamma to the window length",
       \A k \in 1..n : e.disc[k] = G(e, Len(e.windows[k])))
  \cup C("the terminal flag is set iff the window has a terminal transition",
       \A k \in 1..n : e.term[k] =
          IF \E j \in 1..Len(e.windows[k]) : e.windows[k][j].term THEN 100 ELSE 0)
  \cup C("next actions are batched exactly when all windows carry one",
       /\ e.hasna = HasNa(e)
       /\ HasNa(e) => \A k \in 1..n : e.na[k] = 1000 + Lst(e, k)))
INSTANCE TraceBase
=============================================================================
