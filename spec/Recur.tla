----------------------------- MODULE Recur ------------------------------
(* Recurrent agents.  The recurrent layers count: the state of a layer is  *)
(* a code of all its inputs since the initial state (zero).                *)
(* c.stacks[b]: the layers of branch b, TRUE for an LSTM (two cells).      *)
(* s: tr   training state of every env: branch -> layer -> cells           *)
(*    ev   the same for evaluation                                         *)
(*    pre  observation -> the state it must be fed with                    *)
(*    prev observation -> the one before it in its episode                 *)
EXTENDS Util
M == 251
N == 241
Cell(lstm, s, v) == IF lstm THEN << ((5 * s[1]) + v + 1) % M, ((7 * s[2]) + v + 2) % N >>
                    ELSE << ((5 * s[1]) + v + 1) % M >>
RECURSIVE FeedFrom(_, _, _, _)
FeedFrom(stack, s, v, k) ==
  IF k > Len(stack) THEN <<>>
  ELSE LET x == Cell(stack[k], s[k], v) IN <<x>> \o FeedFrom(stack, s, Sum(x) % M, k + 1)
FeedB(stack, s, v) == FeedFrom(stack, s, v % M, 1)
Feed(c, s, v) == [b \in 1..Len(c.stacks) |-> FeedFrom(c.stacks[b], s[b], v, 1)]
Zero(c) == [b \in 1..Len(c.stacks) |-> [k \in 1..Len(c.stacks[b]) |->
             IF c.stacks[b][k] THEN <<0, 0>> ELSE <<0>>]]
\* the action is the code that the (first) branch ends with
OutOf(c, s) == LET x == s[1] IN (Sum(x[Len(x)]) % M) % c.mod
RInit(c) == [tr |-> [i \in 1..c.n |-> Zero(c)], ev |-> [i \in 1..c.m |-> Zero(c)],
             pre |-> <<>>, prev |-> <<>>, lo |-> <<>>]
Put(f, ks, vs) == [x \in (DOMAIN f) \cup {ks[i] : i \in 1..Len(ks)} |->
                     IF \E i \in 1..Len(ks) : ks[i] = x THEN vs[CHOOSE i \in 1..Len(ks) : ks[i] = x] ELSE f[x]]
RPost(c, s, e) ==
  CASE e.op = "act" ->
         LET new == [i \in 1..c.n |-> Feed(c, s.tr[i], e.o[i])]
             p1 == Put(s.pre, e.o, s.tr)
         IN [s EXCEPT !.tr = new,
                      !.pre = IF e.nx # <<>> THEN Put(p1, e.nx, new) ELSE p1,
                      !.prev = IF e.nx # <<>> THEN Put(@, e.nx, e.o) ELSE @,
                      !.lo = e.o]
    [] e.op = "obs" ->
         [s EXCEPT !.pre = Put(@, e.nx, s.tr),
                   !.prev = Put(@, e.nx, s.lo),
                   !.tr = [i \in 1..c.n |-> IF e.end[i] THEN Zero(c) ELSE @[i]]]
    [] e.op = "stop" -> [s EXCEPT !.tr = <<Zero(c)>>]
    [] e.op = "eact" ->
         LET new == [i \in 1..c.m |-> Feed(c, s.ev[i], e.o[i])]
         IN [s EXCEPT !.ev = [i \in 1..c.m |-> IF e.end[i] THEN Zero(c) ELSE new[i]]]
    [] e.op = "estop" -> [s EXCEPT !.ev = <<Zero(c)>>]
Known(s, x) == x \in DOMAIN s.pre
GoodCall(s, k) ==
  /\ Known(s, k.ids[1])
  /\ k.h = s.pre[k.ids[1]][k.br + 1][k.l + 1]
InRow(s, k) == \A j \in 1..(Len(k.ids) - 1) :
                 k.ids[j + 1] \in DOMAIN s.prev /\ s.prev[k.ids[j + 1]] = k.ids[j]
RFails(c, s, e) ==
  IF e.exc # "" THEN {"the call succeeds"}
  ELSE LET t == RPost(c, s, e) IN
       (CASE e.op = "act" ->
              C("every action in training follows from its env's episode so far",
                e.a = [i \in 1..c.n |-> OutOf(c, Feed(c, s.tr[i], e.o[i]))])
          [] e.op = "eact" ->
              C("every action in evaluation follows from its env's episode so far",
                e.a = [i \in 1..c.m |-> OutOf(c, Feed(c, s.ev[i], e.o[i]))])
          [] OTHER -> {})
       \cup C("the model gets every observation with the recurrent state of its episode before it",
              \A i \in 1..Len(e.calls) : GoodCall(t, e.calls[i]))
       \cup C("the sequences the model gets are parts of episodes",
              \A i \in 1..Len(e.calls) : InRow(t, e.calls[i]))
==========================================================================
