-------------------------- MODULE StateStackMC --------------------------
(* The code: one stack for all models; saving and restoring walk the tree  *)
(* of links.  Leaves 1, 2, 3; node 1 is the model, node 2 a part of it     *)
(* with leaf 2 inside a plain chain, node 3 a part with leaf 3.            *)
(*  Bug "none"; "shallow": the walk does not enter plain chains;           *)
(*  "initial": restoring an initial state leaves the present one;          *)
(*  "throw": exceptions skip the restoring                                 *)
EXTENDS StateStack, TLC
CONSTANTS Bug, MaxOps
VARIABLES v, stk, s, bad, ops, calls, slot
vars == <<v, stk, s, bad, ops, calls, slot>>
Leaves == 1..3
H(a, x) == (((a * 5) + x + 1) % 101)
\* what each leaf answers: a code of its history
Code[h \in UNION {[1..k -> 1..2] : k \in 0..MaxOps}] ==
  IF h = <<>> THEN 0 ELSE H(Code[SubSeq(h, 1, Len(h) - 1)], h[Len(h)])
Cf == [nodes |-> <<<<1, 2, 3>>, <<2>>, <<3>>>>, leaves |-> 3, ref |-> <<>>, tol |-> 0, gref |-> <<>>, gtol |-> 0, stateful |-> <<2, 3>>]
\* None is -1: initial
Seen(n) == IF Bug = "shallow" THEN Under(Cf, n) \ {2} ELSE Under(Cf, n)
Get(n) == [l \in Seen(n) |-> v[l]]
Set(w, sv) == [l \in Leaves |-> IF l \in DOMAIN sv
                                 THEN (IF Bug = "initial" /\ sv[l] = -1 THEN w[l] ELSE sv[l]) ELSE w[l]]
Wipe(w, n) == [l \in Leaves |-> IF l \in Seen(n) THEN -1 ELSE w[l]]
Val(a) == IF a = -1 THEN 0 ELSE a
Go(w, n, x) == [l \in Leaves |-> IF l \in Under(Cf, n) THEN H(Val(w[l]), x) ELSE w[l]]
E0 == [op |-> "", n |-> 1, x |-> 0, k |-> 0, nobp |-> TRUE, call |-> 0, y |-> <<>>, grad |-> <<>>, gv |-> <<>>, names |-> <<2, 3>>, exc |-> ""]
\* the reference table holds every history
Ref(h, l) == [l |-> l, h |-> h, y |-> <<Code[h]>>]
Judge(e) ==
  LET t == Feed(Cf, s, e)
      c == IF e.op = "call" THEN [Cf EXCEPT !.ref = [k \in 1..Len(Cf.nodes[e.n]) |-> Ref(t.cur[Cf.nodes[e.n][k]].h, Cf.nodes[e.n][k])]] ELSE Cf
  IN bad' = SFails(c, s, e) /\ s' = [SPost(Cf, s, e) EXCEPT !.memo = <<>>] /\ ops' = ops + 1
Init == v = [l \in Leaves |-> -1] /\ stk = <<>> /\ s = SInit(Cf) /\ bad = {} /\ ops = 0 /\ calls = 0 /\ slot = <<>>
Call(n, x) == LET w == Go(v, n, x) IN
  /\ v' = w /\ calls' = calls + 1
  /\ Judge([E0 EXCEPT !.op = "call", !.n = n, !.x = x, !.call = calls + 1,
             !.y = [k \in 1..Len(Cf.nodes[n]) |-> [l |-> Cf.nodes[n][k], v |-> <<w[Cf.nodes[n][k]]>>]]])
  /\ UNCHANGED <<stk, slot>>
Enter(n, how) ==
  /\ stk' = Append(stk, Get(n)) /\ v' = (IF how = "fresh" THEN Wipe(v, n) ELSE v)
  /\ Judge([E0 EXCEPT !.op = how, !.n = n]) /\ UNCHANGED <<calls, slot>>
Leave1(thrown) ==
  /\ stk # <<>>
  /\ IF thrown /\ Bug = "throw" THEN UNCHANGED <<v, stk>>
     ELSE v' = Set(v, stk[Len(stk)]) /\ stk' = SubSeq(stk, 1, Len(stk) - 1)
  /\ Judge([E0 EXCEPT !.op = "leave", !.k = 1]) /\ UNCHANGED <<calls, slot>>
GetSlot(n) == Len(slot) < 1 /\ slot' = Append(slot, Get(n)) /\ Judge([E0 EXCEPT !.op = "get", !.n = n]) /\ UNCHANGED <<v, stk, calls>>
SetSlot == slot # <<>> /\ v' = Set(v, slot[1]) /\ Judge([E0 EXCEPT !.op = "set", !.k = 1]) /\ UNCHANGED <<stk, calls, slot>>
Reset(n) == v' = Wipe(v, n) /\ Judge([E0 EXCEPT !.op = "reset", !.n = n]) /\ UNCHANGED <<stk, calls, slot>>
Next == ops < MaxOps /\ bad = {} /\
        (\/ \E n \in 1..3, x \in 1..2 : Call(n, x)
         \/ \E n \in 1..3, how \in {"keep", "fresh"} : Enter(n, how)
         \/ \E th \in BOOLEAN : Leave1(th)
         \/ \E n \in 1..3 : GetSlot(n)
         \/ SetSlot \/ (\E n \in 1..2 : Reset(n)))
Sound == bad = {}
=========================================================================
