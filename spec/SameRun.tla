---------------------------- MODULE SameRun -----------------------------
(* A program run again and again, each run after seeding; what it does is  *)
(* a function of the seed.                                                 *)
(*  s.runs  <<[seed, ds], ...>>: the digests of each run so far            *)
EXTENDS Util
Near(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
RunInit(c) == [runs |-> <<>>]
Now(s) == s.runs[Len(s.runs)]
Earlier(s, seed) == {k \in 1..Len(s.runs) : s.runs[k].seed = seed}
RunPost(c, s, e) ==
  CASE e.op = "begin" -> [s EXCEPT !.runs = Append(@, [seed |-> e.seed, ds |-> <<>>])]
    [] e.op = "step" -> [s EXCEPT !.runs[Len(s.runs)].ds = Append(@, e.d)]
    [] OTHER -> s
RunFails(c, s, e) ==
  IF e.exc # "" THEN {"the call succeeds"}
  ELSE CASE e.op = "step" ->
              LET me == Now(s)
                  t == Len(me.ds) + 1
              IN C("the same seed, the same run",
                   \A k \in Earlier(s, me.seed) \ {Len(s.runs)} :
                     t <= Len(s.runs[k].ds) /\ Near(s.runs[k].ds[t], e.d, c.tol))
         [] e.op = "end" ->
              LET me == Now(s) IN
              C("the same seed, the same run",
                \A k \in Earlier(s, me.seed) : Len(s.runs[k].ds) = Len(me.ds))
              \cup C("another seed, another run",
                     c.differs => \A k \in 1..Len(s.runs) :
                                    s.runs[k].seed # me.seed => s.runs[k].ds # me.ds)
              \cup C("the workers of a run have random numbers of their own",
                     c.own => Distinct(me.ds))
         [] OTHER -> {}
=========================================================================
