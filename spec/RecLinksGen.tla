-------------------------- MODULE RecLinksGen ---------------------------
EXTENDS RecLinks, TLC, Json
CONSTANTS MaxOps, MaxHist, Ids
VARIABLES b, s
vars == <<b, s>>
Init == b = <<>> /\ s = RLInit([tol |-> 0])
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
E0 == [op |-> "", x |-> <<>>, y |-> <<>>, idx |-> <<>>, how |-> 0]
Do(e) == b' = Append(b, e) /\ s' = RLPost([tol |-> 0], s, e)
Long == IF s.none THEN 0 ELSE
        LET m == {Len(s.rows[i]) : i \in 1..Len(s.rows)} IN CHOOSE x \in m : \A z \in m : z <= x
Fwd == \E one \in {One({TRUE, FALSE})} :
       \E n \in {IF s.none THEN One(1..3) ELSE Len(s.rows)} :
       \E lens \in {[i \in 1..n |-> IF one THEN 1 ELSE One(1..(3 + (0 * i)))]} :
       \E x \in {[i \in 1..n |-> [t \in 1..lens[i] |-> One(1..(Ids + (0 * t)))]]} :
       \E h \in {One(0..5)} :
         Do([E0 EXCEPT !.op = "fwd", !.x = x, !.how = IF one THEN h ELSE h % 2,
                       !.y = [i \in 1..n |-> [t \in 1..lens[i] |-> <<0>>]]])
N == Len(s.rows)
SubIdx(n) == {q \in UNION {[1..k -> 0..(n - 1)] : k \in 0..Min2(n, 3)} : Distinct(q)}
Next ==
  /\ Len(b) < MaxOps
  /\ \E r \in {One(1..100)} :
       IF Long > MaxHist \/ N > 5 THEN Do([E0 EXCEPT !.op = "drop"])
       ELSE IF r <= 50 \/ (s.none /\ r <= 80) THEN Fwd
       ELSE IF r <= 68 THEN \E q \in {One(SubIdx(IF s.none THEN 2 ELSE N))} : \E h \in {One(0..1)} :
              Do([E0 EXCEPT !.op = "mask", !.idx = q, !.how = h])
       ELSE IF r <= 84 THEN \E q \in {One(SubIdx(IF s.none THEN 1 ELSE N) \ {<<>>})} : \E h \in {One(0..3)} :
              Do([E0 EXCEPT !.op = "get", !.idx = q, !.how = h])
       ELSE IF r <= 97 THEN \E k \in {One(1..3)} :
              \E q \in {[j \in 1..k |-> One(0..(Len(s.slots) + (0 * j)))]} :
              Do([E0 EXCEPT !.op = "concat", !.idx = q])
       ELSE Do([E0 EXCEPT !.op = "drop"])
Emit == Len(b) = MaxOps => PrintT(<<"B", ToJson([b |-> b])>>)
=========================================================================
