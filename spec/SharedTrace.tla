--------------------------- MODULE SharedTrace ---------------------------
(* cfg: init: per holder [par, per, st];  events: an operation and, in     *)
(* vals, the values every process sees through every holder afterwards:    *)
(* <<[p, h, par, per, st], ...>>                                           *)
EXTENDS Shared, TraceData
VARIABLES tid, i, st, bad
S0(c) == [hs |-> [ph \in {0} \X (1..Len(c.init)) |->
                    [par |-> Priv(c.init[ph[2]].par), per |-> Priv(c.init[ph[2]].per),
                     st |-> Priv(c.init[ph[2]].st)]],
          gs |-> <<>>]
Ev(e) == IF e.op = "fork" THEN [op |-> "fork", p |-> 0, h |-> 1, ps |-> {e.kids[k] : k \in 1..Len(e.kids)}] ELSE e
Post(c, s, e) == SPost(s, Ev(e))
NearV(a, b, t) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= t
Fails(c, s, e) ==
  IF e.exc # "" THEN {"the operation succeeds"}
  ELSE LET q == Post(c, s, e)
           Is(x, f, v) == NearV(v, Get(q, x.p, x.h, f), c.tol)
       IN C("every process is seen", Len(e.vals) = Cardinality(DOMAIN q.hs))
          \cup C("parameters seen by every holder are those last written to what it shares",
                 \A k \in 1..Len(e.vals) : Is(e.vals[k], "par", e.vals[k].par))
          \cup C("persistent values seen by every holder are those last written to what it shares",
                 \A k \in 1..Len(e.vals) : Is(e.vals[k], "per", e.vals[k].per))
          \cup C("optimizer states seen by every holder are those last written to what it shares",
                 \A k \in 1..Len(e.vals) : Is(e.vals[k], "st", e.vals[k].st))
INSTANCE TraceBase
==========================================================================
