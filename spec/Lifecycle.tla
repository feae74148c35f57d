---------------------------- MODULE Lifecycle ----------------------------
(* What an agent has learned (its links, optimizers, normalizers, buffer)  *)
(* through a life of training, evaluation, saving and loading.             *)
(* A view is a sequence of [n |-> name, d |-> <<hash, p1, p2, p3>>].       *)
(* c.base: what the training operations alone lead to, one by one:         *)
(*   <<[view, act], ...>>; recomputed values may differ by c.tol.          *)
(* c.evals: evaluations are of interest here; if not, they are allowed to  *)
(*   change things, after which c.base does not apply.                     *)
(* s: n      training operations so far                                    *)
(*    view   the current view                                              *)
(*    files  directory -> [view, probe] at the time of the last save       *)
(*    free   the agent was loaded over: the base does not apply any more   *)
EXTENDS Util
Close(v, w, tol) ==
  /\ Len(v) = Len(w)
  /\ \A k \in 1..Len(v) : /\ v[k].n = w[k].n
                          /\ \A j \in 2..4 : Abs(v[k].d[j] - w[k].d[j]) <= tol
CloseA(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
IsLearned(n) == n \notin {"(buffer)", "(config)"}
Learned(v) == SelectSeq(v, LAMBDA x : IsLearned(x.n))
\* chainer does not reset an optimizer by loading one that was never used
Known(v, f) == SelectSeq(v, LAMBDA x : IsLearned(x.n) /\ x.n \notin f.un)
LFails(c, s, e) ==
  IF e.exc # "" THEN {"the call succeeds"}
  ELSE CASE e.op = "train" ->
              IF s.free THEN {}
              ELSE C("training acts as it would without evaluating or saving in between",
                     CloseA(e.act, c.base[s.n + 1].act, c.tol))
                   \cup C("training leads to the values it would lead to without evaluating or saving in between",
                          Close(e.view, c.base[s.n + 1].view, c.tol))
         [] e.op = "eval" ->
              C("evaluation changes no parameter, optimizer, normalizer, buffer or configuration",
                ~c.evals \/ e.view = s.view)
         [] e.op = "save" ->
              C("saving changes nothing", e.view = e.pre)
         [] e.op = "load" ->
              C("a fresh agent that loads has every learned value of the saved one",
                e.view = Learned(s.files[e.d].view))
              \cup C("a fresh agent that loads acts as the saved one",
                     s.files[e.d].probe = <<>> \/ CloseA(e.act, s.files[e.d].probe, c.tol))
         [] e.op = "reload" ->
              C("an agent that loads an older state has every learned value of it",
                Known(e.view, s.files[e.d]) = Known(s.files[e.d].view, s.files[e.d]))
         [] e.op = "pair" ->
              C("the loaded agent acts as one given all learned values of the saved one",
                CloseA(e.act, e.cact, c.tol))
              \cup C("the loaded agent learns as one given all learned values of the saved one",
                     Close(e.view, e.cview, c.tol))
LPost(c, s, e) ==
  CASE e.op = "train" -> [s EXCEPT !.n = @ + 1, !.view = e.view]
    [] e.op = "eval" /\ ~c.evals -> [s EXCEPT !.free = TRUE, !.view = e.view]
    [] e.op = "save" -> [s EXCEPT !.view = e.view, !.free = @ \/ (e.act # <<>>), !.files = [d \in (DOMAIN @) \cup {e.d} |->
                           IF d = e.d THEN [view |-> e.view, probe |-> e.act, un |-> {e.un[k] : k \in 1..Len(e.un)}] ELSE @[d]]]
    [] e.op = "reload" -> [s EXCEPT !.free = TRUE, !.view = e.view]
    [] OTHER -> s
LInit(c) == [n |-> 0, view |-> c.init, files |-> <<>>, free |-> FALSE]
===========================================================================
