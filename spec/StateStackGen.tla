-------------------------- MODULE StateStackGen --------------------------
(* Streams of calls; the node numbers are resolved by the driver.          *)
EXTENDS Util, TLC, Json
CONSTANTS MaxOps, Ids
VARIABLES b, d, sl, len
vars == <<b, d, sl, len>>
Init == b = <<>> /\ d = 0 /\ sl = 0 /\ len = 0
One(S) == RandomElement(IF Len(b) >= 0 THEN S ELSE {})
E0 == [op |-> "", n |-> 0, x |-> 0, k |-> 0, how |-> 0, nobp |-> FALSE]
Do(e, dd, ss, ll) == b' = Append(b, e) /\ d' = dd /\ sl' = ss /\ len' = ll
Next ==
  /\ Len(b) < MaxOps
  /\ \E r \in {One(1..100)} : \E n \in {One(0..23)} : \E h \in {One(0..5)} : \E x \in {One(1..Ids)} :
       CASE r <= 45 -> Do([E0 EXCEPT !.op = IF h = 0 THEN "update" ELSE "call", !.n = IF h <= 3 THEN 0 ELSE n,
                                 !.x = x, !.nobp = r <= 5], d, sl, len + 1)
         [] r > 45 /\ r <= 65 -> Do([E0 EXCEPT !.op = IF h % 2 = 0 THEN "keep" ELSE "fresh",
                                        !.n = IF r < 54 THEN 0 ELSE n, !.how = h \div 2], d + 1, sl, len)
         [] r > 65 /\ r <= 80 /\ d > 0 ->
              \E k \in {IF h = 0 THEN One(1..d) ELSE 1} :
                 Do([E0 EXCEPT !.op = "leave", !.k = k, !.how = IF h <= 1 THEN 1 ELSE 0], d - k, sl, len)
         [] r > 80 /\ r <= 86 -> Do([E0 EXCEPT !.op = "get", !.n = n, !.how = h], d, sl + 1, len)
         [] r > 86 /\ r <= 91 /\ sl > 0 -> Do([E0 EXCEPT !.op = "set", !.k = One(1..sl)], d, sl, len)
         [] r > 91 /\ r <= 95 -> Do([E0 EXCEPT !.op = "reset", !.n = n], d, sl, 0)
         [] r > 95 /\ r <= 98 -> Do([E0 EXCEPT !.op = "unchain", !.n = n], d, sl, len)
         [] OTHER -> Do([E0 EXCEPT !.op = "list"], d, sl, len)
Emit == Len(b) = MaxOps => PrintT(<<"B", ToJson([b |-> b])>>)
==========================================================================
