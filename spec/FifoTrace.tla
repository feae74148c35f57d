----------------------------- MODULE FifoTrace -----------------------------
(* Conformance of recorded queue histories to the bounded FIFO list.       *)
EXTENDS Fifo, TraceData
VARIABLES tid, i, st, bad
S0(c) == <<>>
Err(s, e) == CASE e.op = "popleft" -> s = <<>>
               [] e.op \in {"get", "set"} -> ~Valid(s, e.i)
               [] e.op = "sample" -> e.k > Len(s)
               [] OTHER -> FALSE
Post(c, s, e) ==
  CASE e.op = "new" -> FNew(c.cap, e.xs)
    [] e.op \in {"append", "extend"} -> FExtend(s, c.cap, e.xs)
    [] e.op = "popleft" -> IF s = <<>> THEN s ELSE Tail(s)
    [] e.op = "set" -> IF Valid(s, e.i) THEN FSet(s, e.i, e.xs[1]) ELSE s
    [] OTHER -> s
Fails(c, s, e) ==
  LET q == Post(c, s, e) er == Err(s, e)
  IN C("an error is raised exactly when the access is out of range",
       er = (e.exc # ""))
     \cup C("popleft returns the oldest entry",
            e.op = "popleft" /\ ~er => e.ret = s[1])
     \cup C("indexing returns the entry at that position",
            e.op = "get" /\ ~er => e.ret = FGet(s, e.i))
     \cup C("sample returns distinct stored entries",
            e.op = "sample" /\ ~er =>
              Len(e.smp) = e.k /\ Distinct(e.smp) /\ Range(e.smp) \subseteq Range(s))
     \cup C("the size never exceeds the capacity", c.cap < 0 \/ e.len <= c.cap)
     \cup C("the size is the number of entries held", e.len = Len(q))
     \cup C("exactly the newest entries are held, oldest first",
            IF c.kind = "prioritized" THEN SameBag(e.items, q) ELSE e.items = q)
     \cup C("iteration agrees with indexing",
            c.kind = "prioritized" \/ (e.it = q /\ e.neg = Rev(q)))
INSTANCE TraceBase
=============================================================================
