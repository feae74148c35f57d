------------------------------ MODULE Shared ------------------------------
(* Links and optimizers whose values live in shared memory.                 *)
(* hs: <<process, holder>> -> [par, per, st], each of which is              *)
(*   [g |-> 0, v |-> values]  private to that process, or                   *)
(*   [g |-> k, v |-> <<>>]    an alias of shared group k                    *)
(* gs: groups (never freed): [par, per, st] values                          *)
(* A fork copies every holder: private values diverge, groups do not.       *)
(* Parameters follow MomentumSGD with momentum 1/2, learning rate 1/2, in   *)
(* units chosen by the driver so that halves are exact.                     *)
EXTENDS Util
Priv(v) == [g |-> 0, v |-> v]
Ref(k) == [g |-> k, v |-> <<>>]
Val(s, x, f) == IF x.g = 0 THEN x.v ELSE s.gs[x.g][f]
Get(s, p, h, f) == Val(s, s.hs[<<p, h>>][f], f)
Put(s, p, h, f, v) ==
  LET x == s.hs[<<p, h>>][f]
  IN IF x.g = 0 THEN [s EXCEPT !.hs[<<p, h>>][f] = Priv(v)]
     ELSE [s EXCEPT !.gs[x.g][f] = v]
NewGroup(s, p, h) ==
  [s EXCEPT !.gs = Append(@, [par |-> Get(s, p, h, "par"), per |-> Get(s, p, h, "per"),
                              st |-> Get(s, p, h, "st")])]
\* alias components fs of a holder to group k
Alias(s, p, h, fs, k) ==
  [s EXCEPT !.hs[<<p, h>>] = [f \in DOMAIN @ |-> IF f \in fs THEN Ref(k) ELSE @[f]]]
Update(s, p, h, gr) ==
  LET v0 == Get(s, p, h, "st")
      p0 == Get(s, p, h, "par")
      v1 == [k \in 1..Len(v0) |-> (v0[k] - gr[k]) \div 2]
      s1 == Put(s, p, h, "st", v1)
  IN Put(s1, p, h, "par", [k \in 1..Len(p0) |-> p0[k] + v1[k]])
SPost(s, e) ==
  LET p == e.p
      h == e.h
  IN CASE e.op = "extract" -> NewGroup(s, p, h)
       [] e.op = "share" -> Alias(NewGroup(s, p, h), p, h, {"par", "per"}, Len(s.gs) + 1)
       [] e.op = "sharest" -> Alias(NewGroup(s, p, h), p, h, {"st"}, Len(s.gs) + 1)
       [] e.op = "shareall" -> Alias(NewGroup(s, p, h), p, h, {"par", "per", "st"}, Len(s.gs) + 1)
       [] e.op = "syncall" -> Alias(s, p, h, {"par", "per", "st"}, e.k)
       [] e.op = "sync" -> Alias(s, p, h, {"par", "per"}, e.k)
       [] e.op = "syncst" -> Alias(s, p, h, {"st"}, e.k)
       [] e.op = "setpar" -> Put(s, p, h, "par", [Get(s, p, h, "par") EXCEPT ![e.k] = e.x])
       [] e.op = "setper" -> Put(s, p, h, "per", [Get(s, p, h, "per") EXCEPT ![e.k] = e.x])
       [] e.op = "setst" -> Put(s, p, h, "st", [Get(s, p, h, "st") EXCEPT ![e.k] = e.x])
       [] e.op = "update" -> Update(s, p, h, e.gr)
       \* an optimizer whose rule is not modelled: the updated values are given
       [] e.op = "updateo" -> Put(Put(s, p, h, "st", e.nst), p, h, "par", e.npar)
       [] e.op = "notshared" ->
            [s EXCEPT !.hs[<<p, h>>].par = Priv(Get(s, p, h, "par"))]
       \* a deep copy of a link is private (its optimizer state is another matter)
       [] e.op = "deepcopy" ->
            [s EXCEPT !.hs[<<p, e.h2>>] =
               [par |-> Priv(Get(s, p, h, "par")), per |-> Priv(Get(s, p, h, "per")),
                st |-> Priv(e.st0)]]
       \* values of h copied into h2 (in place)
       [] e.op = "copyparams" ->
            Put(Put(s, p, e.h2, "par", Get(s, p, h, "par")), p, e.h2, "per", Get(s, p, h, "per"))
       [] e.op = "fork" ->
            [s EXCEPT !.hs = [ph \in (DOMAIN s.hs) \cup (e.ps \X {ph[2] : ph \in DOMAIN s.hs}) |->
               IF ph \in DOMAIN s.hs THEN s.hs[ph] ELSE s.hs[<<0, ph[2]>>]]]
       [] OTHER -> s
===========================================================================
