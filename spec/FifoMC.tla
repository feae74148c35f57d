------------------------------ MODULE FifoMC ------------------------------
(* The two-list queue implements the bounded FIFO list.                    *)
EXTENDS Fifo
CONSTANTS Cap, MaxX, MaxLen
VARIABLES q, r, x
Init == q = <<>> /\ r = [front |-> <<>>, back |-> <<>>] /\ x = 0
Ext(k) == /\ x + k <= MaxX /\ Len(q) + k <= MaxLen
          /\ LET xs == [j \in 1..k |-> x + j]
             IN q' = FExtend(q, Cap, xs) /\ r' = TLExtend(r, Cap, xs)
          /\ x' = x + k
Pop == /\ q # <<>>
       /\ q' = Tail(q)
       /\ LET p == TLPop(r) IN r' = [front |-> p.front, back |-> p.back]
       /\ x' = x
Set(i) == /\ Valid(q, i) /\ x < MaxX
          /\ q' = FSet(q, i, x + 1) /\ r' = TLSet(r, i, x + 1) /\ x' = x + 1
Next == (\E k \in 0..3 : Ext(k)) \/ Pop \/ (\E i \in -MaxLen..MaxLen : Set(i))
Spec == Init /\ [][Next]_<<q, r, x>>
Refines == TLAbs(r) = q
Indexing == \A i \in -MaxLen..MaxLen : Valid(q, i) => TLGet(r, i) = FGet(q, i)
PopOldest == q # <<>> => TLPop(r).ret = q[1]
Bounded == Cap >= 0 => Len(q) <= Cap
===========================================================================
