------------------------- MODULE NormalizerTrace -------------------------
(* Conformance of recorded normalizer histories.                           *)
(* cfg: D, until (-1 none), eps14, clip10 (-1 none)                        *)
(* events (slot o): exp(xs) call(xs, upd, ys) inv(ys, xs) save load copy   *)
(* (from o to p) and none; after each, the statistics of every slot:       *)
(* mean14, var14 (scaled by 2^14).                                         *)
EXTENDS Normalizer, Util, TraceData
VARIABLES tid, i, st, bad
K14 == 16384
K7 == 128
S0(c) == [o |-> [k \in 1..3 |-> NNew(c.D)], saved |-> NNew(c.D)]
Post(c, s, e) ==
  CASE e.op = "exp" \/ (e.op = "call" /\ e.upd) ->
         [s EXCEPT !.o[e.o] = NExp(@, c.until, e.xs)]
    [] e.op = "save" -> [s EXCEPT !.saved = s.o[e.o]]
    [] e.op = "load" -> [s EXCEPT !.o[e.o] = s.saved]
    [] e.op = "copy" -> [s EXCEPT !.o[e.p] = s.o[e.o]]
    [] OTHER -> s
\* a / b * 2^14, b > 0, |a| < 2^24 b, b < 2^24
Sc14(a, b) == LET q0 == a \div b
                  r0 == a % b
                  q1 == (r0 * K7) \div b
                  r1 == (r0 * K7) % b
              IN q0 * K14 + q1 * K7 + ((r1 * K7) \div b)
Mean14(x, k) == Sc14(NMeanN(x, k), NDen(x))
Var14(x, k) == Sc14(NVarN(x, k), NDen(x) * NDen(x))
RECURSIVE ISqrt(_, _, _)
ISqrt(x, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET m == (lo + hi) \div 2
                         IN IF m * m <= x THEN ISqrt(x, m, hi) ELSE ISqrt(x, lo, m)
\* sqrt(var + eps) * 2^10
Sd10(c, x, k) == ISqrt((Var14(x, k) + c.eps14) * 64, 0, 32768)
NearI(a, b, t) == Abs(a - b) <= t
StatOK(x, o) ==
  \A k \in DOMAIN x.S : NearI(o.mean[k], Mean14(x, k), 12)
StdOK(x, o) ==
  \A k \in DOMAIN x.S : NearI(o.var[k], Var14(x, k), 24 + (Var14(x, k) \div 4096))
\* y10 (scaled 2^10) is the normalization of x by statistics st
NormOK(c, x, ys, xs) ==
  \A j \in 1..Len(xs) : \A k \in DOMAIN x.S :
    LET sd == Sd10(c, x, k)
        d == 64 * (xs[j][k] * K14 - Mean14(x, k))      \* (x - mean) * 2^20
        t == (Abs(d) \div 256) + 2 * sd + 2048
        p == ys[j][k] * sd
    IN IF c.clip10 < 0 THEN NearI(p, d, t)
       ELSE \/ NearI(p, d, t)
            \/ ys[j][k] = c.clip10 /\ d + t >= p
            \/ ys[j][k] = -c.clip10 /\ d - t <= p
InvOK(c, x, ys, xs) ==
  \A j \in 1..Len(ys) : \A k \in DOMAIN x.S :
    LET sd == Sd10(c, x, k)
        w == ys[j][k] * sd * 4 + (Mean14(x, k) \div 4)  \* ys in units 1: 2^12
    IN NearI(xs[j][k], w, (Abs(w) \div 256) + 40)
Fails(c, s, e) ==
  LET q == Post(c, s, e)
  IN C("an operation raised an exception", e.exc = "")
     \cup (IF e.exc # "" THEN {} ELSE
     C("mean is the mean of all samples learned", \A k \in 1..3 : StatOK(q.o[k], e.obs[k]))
     \cup C("std is the deviation of all samples learned", \A k \in 1..3 : StdOK(q.o[k], e.obs[k]))
     \cup (IF e.op # "call" THEN {} ELSE
           C("outputs are normalized by the mean and deviation learned so far",
             \/ NormOK(c, s.o[e.o], e.ys, e.xs)
             \/ NormOK(c, q.o[e.o], e.ys, e.xs))
           \cup C("the threshold bounds the outputs",
                c.clip10 < 0 \/ \A j \in 1..Len(e.ys) : \A k \in 1..c.D : Abs(e.ys[j][k]) <= c.clip10)
           \cup C("inputs and outputs are of the same kind", e.kind))
     \cup (IF e.op # "inv" THEN {} ELSE
           C("inverse undoes the normalization", InvOK(c, s.o[e.o], e.ys, e.xs))
           \cup C("inputs and outputs are of the same kind", e.kind)))
INSTANCE TraceBase
==========================================================================
