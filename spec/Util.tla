------------------------------ MODULE Util ------------------------------
(* Helpers shared by the models. *)
EXTENDS Integers, Sequences, FiniteSets
\* {name} if ok is FALSE: the name of a violated clause
C(name, ok) == IF ok THEN {} ELSE {name}
Unbounded == -1
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Range(s) == {s[k] : k \in 1..Len(s)}
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) - k + 1]]
Sum(s) == LET F[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE F[k - 1] + s[k]
          IN F[Len(s)]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
\* the newest cap entries of q (cap < 0: unbounded)
Trim(q, cap) == IF cap < 0 \/ Len(q) <= cap THEN q
                ELSE SubSeq(q, Len(q) - cap + 1, Len(q))
\* same elements in some order (elements of a are pairwise distinct)
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ Range(a) = Range(b)
                 /\ Cardinality(Range(a)) = Len(a)
Distinct(s) == Cardinality(Range(s)) = Len(s)
Last(s) == s[Len(s)]
IsSuffix(a, b) == /\ Len(a) <= Len(b)
                  /\ a = SubSeq(b, Len(b) - Len(a) + 1, Len(b))
SumOver(S, f(_)) ==
  LET G[T \in SUBSET S] ==
        IF T = {} THEN 0
        ELSE LET x == CHOOSE x \in T : TRUE IN f(x) + G[T \ {x}]
  IN G[S]
=========================================================================
