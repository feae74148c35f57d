----------------------------------- MODULE ToysMC -----------------------------------
(* The modifiers in every order over a base env answering anything; the toy env under *)
(* every policy.                                                                       *)
EXTENDS Mods, TLC
CONSTANTS N, BREAK
A == INSTANCE Abc
VARIABLES M, st, h, S, x, ax
Ms == {[t |-> "limit", k |-> 2], [t |-> "repeat", k |-> 2], [t |-> "rendered", k |-> 1],
       [t |-> "clip", lo |-> -K, hi |-> K], [t |-> "reward", k |-> 2], [t |-> "action", k |-> 3],
       [t |-> "avg", tau |-> 500], [t |-> "norm", tau |-> 500, eps |-> 800, scale |-> 1]}
Scripts == {<<[r |-> a, done |-> d], [r |-> b, done |-> FALSE], [r |-> K, done |-> e]>> :
              a \in {-2 * K, 0}, b \in {0, K}, d, e \in BOOLEAN}
Abcs == {[size |-> z, po |-> p, det |-> d, episodic |-> e] : z \in 1..3, p, d, e \in BOOLEAN}
Init == /\ M \in {<<a, b>> : a, b \in Ms} /\ S \in Scripts
        /\ st = Init0(M) /\ h = <<>> /\ x = [k |-> "", len |-> 0, tot |-> 0]
        /\ ax \in {[c |-> c, s |-> [x |-> 0, off |-> 0, eps |-> 0], w |-> 0, done |-> TRUE, r |-> 0] :
                    c \in IF M = <<[t |-> "limit", k |-> 2], [t |-> "repeat", k |-> 2]>> /\ S = CHOOSE z \in Scripts : TRUE
                          THEN Abcs ELSE {CHOOSE z \in Abcs : TRUE}}
DoReset == /\ st' = (IF BREAK = "stale" THEN [Reset(M, st) EXCEPT !.ms = st.ms] ELSE Reset(M, st))
           /\ h' = Append(h, "r") /\ x' = [k |-> "r", len |-> 0, tot |-> 0]
           /\ \E o \in A!Offs(ax.c, ax.s) : ax' = [ax EXCEPT !.s = [A!Begin(@, o) EXCEPT !.eps = 1], !.w = 0, !.done = FALSE, !.r = 0]
DoStep == /\ h # <<>>
          /\ LET e == Step(M, S, 2, st, 5) IN
             /\ st' = e.s /\ h' = Append(h, "s")
             /\ x' = [k |-> "s", len |-> x.len + 1, tot |-> x.tot + e.r, r |-> e.r, done |-> e.done, n |-> e.s.n - st.n, log |-> SubSeq(e.s.log, Len(st.log) + 1, Len(e.s.log))]
          /\ \E a \in 0..(ax.c.size - 1) :
               IF ax.done THEN UNCHANGED ax
               ELSE LET e == A!Act(ax.c, ax.s, a)
                    IN ax' = [ax EXCEPT !.s = e.s, !.done = e.done, !.r = e.r, !.w = IF a = ax.s.x THEN @ + 1 ELSE @]
Next == Len(h) < N /\ UNCHANGED <<M, S>> /\ (DoReset \/ DoStep)
Has(t) == \E j \in 1..2 : M[j].t = t
\* an outermost limit ends episodes in time, an inner one may be passed within a repetition only
Limited == x.k = "s" /\ Has("limit") => (x.len >= 2 => x.done)
\* no end of an episode that neither the base env nor a passed limit asked for
Patient == (x.k = "s" /\ x.done /\ x.len = 1 /\ ~Has("repeat")) => S[((st.n - 1) % 3) + 1].done
Repeated == x.k = "s" => x.n <= 4 /\ (~Has("repeat") => x.n = 1)
Clipped == x.k = "s" /\ M[2].t = "clip" => x.r \in -K..K
Actions == x.k = "s" => \A z \in Range(x.log) : z[1] = "step" => (z[2] = 5 <=> ~Has("action"))
Rendered == x.k = "s" /\ M[2].t = "rendered" => Last(x.log) = <<"render", 1>>
OneHot == LET o == A!Obs(ax.c, ax.s) IN Cardinality({j \in 1..Len(o) : o[j] = 1}) = 1
Rewarded == /\ ax.r = 1 => ax.w >= ax.c.size
            /\ (ax.c.episodic /\ ax.done /\ ax.w = ax.c.size) => ax.s.x = ax.c.size
=====================================================================================
