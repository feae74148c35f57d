------------------------------- MODULE Fifo -------------------------------
(* Bounded FIFO list (the meaning of RandomAccessQueue) and its two-list   *)
(* representation.  cap < 0: unbounded.                                    *)
EXTENDS Util
FNew(cap, xs) == Trim(xs, cap)
FExtend(q, cap, xs) == Trim(q \o xs, cap)
\* Python indexing: i in -Len..Len-1
Valid(q, i) == -Len(q) <= i /\ i < Len(q)
Pos(q, i) == IF i >= 0 THEN i + 1 ELSE Len(q) + i + 1
FGet(q, i) == q[Pos(q, i)]
FSet(q, i, x) == [q EXCEPT ![Pos(q, i)] = x]

\* ---- representation: front is stored reversed
TLAbs(r) == Rev(r.front) \o r.back
TLPop(r) == IF r.front = <<>>
            THEN LET f == Rev(r.back)
                 IN [front |-> SubSeq(f, 1, Len(f) - 1), back |-> <<>>,
                     ret |-> Last(f)]
            ELSE [front |-> SubSeq(r.front, 1, Len(r.front) - 1),
                  back |-> r.back, ret |-> Last(r.front)]
RECURSIVE TLTrim(_, _)
TLTrim(r, cap) ==
  IF cap < 0 \/ Len(r.front) + Len(r.back) <= cap THEN r
  ELSE LET p == TLPop(r)
       IN TLTrim([front |-> p.front, back |-> p.back], cap)
TLExtend(r, cap, xs) == TLTrim([r EXCEPT !.back = @ \o xs], cap)
TLGet(r, i) ==
  LET nf == Len(r.front) nb == Len(r.back)
  IN IF i >= 0 THEN IF i < nf THEN r.front[nf - i] ELSE r.back[i - nf + 1]
     ELSE IF i >= -nb THEN r.back[nb + i + 1] ELSE r.front[-(i + nb)]
TLSet(r, i, x) ==
  LET nf == Len(r.front) nb == Len(r.back)
  IN IF i >= 0
     THEN IF i < nf THEN [r EXCEPT !.front[nf - i] = x]
          ELSE [r EXCEPT !.back[i - nf + 1] = x]
     ELSE IF i >= -nb THEN [r EXCEPT !.back[nb + i + 1] = x]
          ELSE [r EXCEPT !.front[-(i + nb)] = x]
===========================================================================
