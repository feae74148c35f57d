--------------------------- MODULE StateStack ---------------------------
(* Stateful recurrent models.  A leaf (an LSTM, or a link that implements  *)
(* Recurrent) has a state; its value is the history of inputs since the    *)
(* initial state, its computational graph a chain of nodes.                *)
(*  c.nodes   node -> its leaves          c.ref  <<[l, h, y], ...>>        *)
(*  s.cur     leaf -> [h, g]; g = 0: no graph                              *)
(*  s.graph   <<[p |-> node before, x |-> input (call), cut], ...>>        *)
(*  s.stack   entered contexts and pushes [n, save], n = 0: of no state    *)
(*  s.slots   states that get_state returned                               *)
EXTENDS Util
Near(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol
Fresh == [h |-> <<>>, g |-> 0]
Under(c, n) == Range(c.nodes[n])
SInit(c) == [cur |-> [l \in 1..c.leaves |-> Fresh], graph |-> <<>>, stack |-> <<>>,
             slots |-> <<>>, memo |-> <<>>]
Save(c, s, n) == [l \in Under(c, n) |-> s.cur[l]]
Restore(s, save) == [s EXCEPT !.cur = [l \in DOMAIN @ |-> IF l \in DOMAIN save THEN save[l] ELSE @[l]]]
Clear(c, s, n) == [s EXCEPT !.cur = [l \in DOMAIN @ |-> IF l \in Under(c, n) THEN Fresh ELSE @[l]]]
RECURSIVE Reach(_, _)
Reach(graph, g) == IF g = 0 THEN {}
                   ELSE IF graph[g].cut THEN {} ELSE {graph[g].x} \cup Reach(graph, graph[g].p)
RECURSIVE Above(_, _)
Above(graph, g) == IF g = 0 THEN {}
                   ELSE {g} \cup (IF graph[g].cut THEN {} ELSE Above(graph, graph[g].p))
\* a call: every leaf below the node goes on (leaves in the order of c.nodes)
Feed(c, s, e) ==
  LET ls == c.nodes[e.n]
      k0 == Len(s.graph)
  IN [s EXCEPT
       !.graph = @ \o [k \in 1..Len(ls) |-> [p |-> s.cur[ls[k]].g, x |-> e.call, cut |-> e.nobp]],
       !.cur = [l \in DOMAIN @ |->
                 IF l \in Under(c, e.n)
                 THEN [h |-> Append(@[l].h, e.x), g |-> k0 + (CHOOSE k \in 1..Len(ls) : ls[k] = l)]
                 ELSE @[l]]]
Learn(c, s, t, e) ==
  LET ks == {<<e.y[k].l, t.cur[e.y[k].l].h>> : k \in 1..Len(e.y)} IN
  [t EXCEPT !.memo = [x \in (DOMAIN @) \cup ks |->
     IF x \in DOMAIN @ THEN @[x]
     ELSE LET k == CHOOSE k \in 1..Len(e.y) : <<e.y[k].l, t.cur[e.y[k].l].h>> = x IN e.y[k].v]]
RECURSIVE Leave(_, _)
Leave(s, k) ==
  IF k = 0 \/ s.stack = <<>> THEN s
  ELSE LET top == s.stack[Len(s.stack)]
           t == Restore(s, top.save)
       IN Leave([t EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)], k - 1)
SPost(c, s, e) ==
  CASE e.op = "call" -> Learn(c, s, Feed(c, s, e), e)
    [] e.op = "update" -> Feed(c, s, e)
    [] e.op = "keep" -> [s EXCEPT !.stack = Append(@, [save |-> Save(c, s, e.n)])]
    [] e.op = "fresh" -> LET t == [s EXCEPT !.stack = Append(@, [save |-> Save(c, s, e.n)])]
                         IN Clear(c, t, e.n)
    [] e.op = "noop" -> [s EXCEPT !.stack = Append(@, [save |-> [l \in {} |-> Fresh]])]
    [] e.op = "leave" -> Leave(s, e.k)
    [] e.op = "get" -> [s EXCEPT !.slots = Append(@, Save(c, s, e.n))]
    [] e.op = "set" -> Restore(s, s.slots[e.k])
    [] e.op = "reset" -> Clear(c, s, e.n)
    [] e.op = "unchain" ->
         LET cuts == UNION {Above(s.graph, s.cur[l].g) : l \in Under(c, e.n)} IN
         [s EXCEPT !.graph = [k \in 1..Len(@) |-> IF k \in cuts THEN [@[k] EXCEPT !.cut = TRUE] ELSE @[k]]]
    [] OTHER -> s
Right(c, s, l, h, v) ==
  /\ \A k \in 1..Len(c.ref) : (c.ref[k].l = l /\ c.ref[k].h = h) => Near(c.ref[k].y, v, c.tol)
  /\ <<l, h>> \in DOMAIN s.memo => Near(s.memo[<<l, h>>], v, c.tol)
\* the gradient of a call of the whole model whose leaves went through the same
\* calls, none of them cut off
GradRight(c, t, e) ==
  \A k \in 1..Len(c.gref) :
    (/\ e.n = 1 /\ ~e.nobp /\ c.leaves > 0
     /\ \A l \in 1..c.leaves : /\ t.cur[l].h = c.gref[k].h
                              /\ Reach(t.graph, t.cur[l].g) = Range(e.grad)
     /\ Cardinality(Range(e.grad)) = Len(c.gref[k].h))
      => \A j \in 1..Len(c.gref[k].g) : Near(c.gref[k].g[j], e.gv[j], c.gtol)
SFails(c, s, e) ==
  IF e.exc # "" THEN {"the call succeeds"}
  ELSE CASE e.op = "call" ->
              LET t == Feed(c, s, e) IN
              C("outputs follow from the inputs since the initial state, contexts undone",
                /\ {e.y[k].l : k \in 1..Len(e.y)} = Under(c, e.n)
                /\ \A k \in 1..Len(e.y) : Right(c, s, e.y[k].l, t.cur[e.y[k].l].h, e.y[k].v))
              \cup C("gradients flow through the states to the inputs since they were unchained",
                     Range(e.grad) = UNION {Reach(t.graph, t.cur[l].g) : l \in Under(c, e.n)})
              \cup C("gradients are those of the same calls without contexts",
                     Len(e.gv) = Len(e.grad) /\ GradRight(c, t, e))
         [] e.op = "list" -> C("the stateful links are found however nested", e.names = c.stateful)
         [] OTHER -> {}
=========================================================================
