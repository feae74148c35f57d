----------------------------- MODULE EvaluatorMC -----------------------------
(* The sequential evaluator against a declarative reading of its contract;   *)
(* also the generator of call sequences.                                     *)
EXTENDS Evaluator, TLC, Json
VARIABLES c, s, h
CONSTANTS Offs, Ints, Ns, Gaps, Rets, Len_, Gen, Async, Rnd
\* in simulations one random answer per step is enough
Calls == IF Rnd THEN {[d |-> RandomElement(IF c.off >= 0 THEN Gaps ELSE {}),
                       rets |-> [j \in 1..c.n |-> RandomElement(IF j > 0 THEN Rets ELSE {})]]}
         ELSE [d : Gaps, rets : [1..c.n -> Rets]]
Init == /\ c \in [off : Offs, int : Ints, n : Ns, save : BOOLEAN,
                  async : Async, succ : {<<>>}, episodes : {TRUE}]
        /\ s = EV0(c) /\ h = <<>>
T(k) == c.off + Sum([j \in 1..k |-> h[j].d])
Ran(k) == h[k].ran
Next == /\ Len(h) < Len_ /\ c' = c
        /\ \E x \in Calls :
             /\ LET t == c.off + Sum([j \in 1..Len(h) |-> h[j].d]) + x.d
                    ran == Due(c, s, t)
                IN /\ s' = EVPost(c, s, [op |-> "call", t |-> t,
                                         rets |-> IF ran THEN x.rets ELSE <<>>])
                   /\ h' = Append(h, [d |-> x.d, rets |-> x.rets, ran |-> ran])
\* evaluated iff a multiple of the interval lies in (last evaluation, t]
Boundaries == ~c.async => \A k \in 1..Len(h) :
   LET last == IF \E j \in 1..(k - 1) : Ran(j)
               THEN T(CHOOSE j \in 1..(k - 1) : Ran(j) /\ \A z \in (j + 1)..(k - 1) : ~Ran(z))
               ELSE c.off
   IN Ran(k) <=> \E m \in (last + 1)..T(k) : m % c.int = 0
\* with a shared evaluator every boundary counts, one evaluation per call
AllBoundaries == c.async => \A k \in 1..Len(h) :
   Cardinality({j \in 1..k : Ran(j)}) <= (T(k) \div c.int) - (c.off \div c.int)
NoneLost == c.async => \A k \in 1..Len(h) :
   ~Ran(k) => Cardinality({j \in 1..k : Ran(j)}) = (T(k) \div c.int) - (c.off \div c.int)
BestIsMax == LET m == {Sum(h[j].rets) : j \in {z \in 1..Len(h) : Ran(z)}}
             IN IF m = {} THEN s.best = <<>>
                ELSE s.best[1] \in m /\ \A z \in m : z <= s.best[1]
Emit == Gen /\ Len(h) = Len_ => PrintT(<<"B", ToJson([c |-> c, h |-> h])>>)
SeqOnly == {FALSE}
SeqOrAsync == {FALSE, TRUE}
RetsAll == {-3, 0, 2}
RetsLong == {-7, -1, 0, 2, 3, 11}
===============================================================================
