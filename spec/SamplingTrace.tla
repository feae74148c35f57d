---------------------------- MODULE SamplingTrace ----------------------------
(* Uniform sampling without replacement: a sample of n out of m positions    *)
(* is a uniformly distributed n-subset.  Counts of repeated samples are      *)
(* compared with the probabilities of that model: n/m per item and           *)
(* n(n-1)/(m(m-1)) per pair.                                                 *)
EXTENDS Util, Stat, TraceData
VARIABLES tid, i, st, bad
S0(c) == 0
Post(c, s, e) == s
Fails(c, s, e) ==
  CASE e.op = "counts" ->
         C("samples have the requested number of stored items", e.bad = 0)
         \cup C("no item is returned twice in one sample", e.dup = 0)
         \cup C("every stored item is equally likely",
                \A k \in 1..e.m : FreqOK(e.cnt[k], e.N, e.n, e.m))
         \cup C("every pair of stored items is equally likely",
                e.pairs => \A a, b \in 1..e.m : a < b =>
                  FreqOK(e.pair[a][b], e.N, e.n * (e.n - 1), e.m * (e.m - 1)))
    [] e.op = "size" ->
         C("sampling fails exactly when more is asked for than stored",
           (e.exc # "") = (e.n > e.m))
         \cup C("a sample has n distinct stored items",
           e.n <= e.m => /\ Len(e.got) = e.n /\ Distinct(e.got)
                         /\ \A k \in 1..Len(e.got) : e.got[k] \in 0..(e.m - 1))
    [] e.op = "offsets" ->
         C("sub-episodes are contiguous and of the right length", e.bad = 0)
         \cup C("every feasible start offset is equally likely",
                \A k \in 1..Len(e.cnt) : FreqOK(e.cnt[k], e.N, 1, Len(e.cnt)))
INSTANCE TraceBase
==============================================================================
