-------------------------------- MODULE AsyncLearnMC --------------------------------
(* Laws of the updates of AsyncLearn, over every two-step segment of a small model:  *)
(* what the algorithms promise, independent of how the updates are written down.     *)
EXTENDS AsyncLearn, TLC
CONSTANT Full
VARIABLES x
Picks == IF Full THEN (1..3) \X (1..3) \X (1..3) \X (1..3)
         ELSE {<<1, 2, 1, 2>>, <<2, 3, 2, 1>>, <<3, 1, 3, 3>>, <<2, 2, 1, 3>>}
\* segments over two states and two actions; tables picked by number
Trs == [u : {1, 2}, a : {0, 1}, r : {-K, 2 * K}, u2 : {1, 2}, nt : {TRUE}]
P2 == <<<<65536, 65536>>, <<98304, 32768>>, <<32768, 98304>>>>
Seg2 == {<<y, [z EXCEPT !.nt = b]>> : y \in Trs, z \in {z \in Trs : TRUE}, b \in BOOLEAN}
Init == \E s \in Seg2 : s[1].u2 = s[2].u /\
        \E z \in Picks : \E i \in {z[1]}, j \in {z[2]}, h \in {z[3]}, k \in {z[4]} : x = [s |-> s, i |-> i, j |-> j, h |-> h, k |-> k]
Next == UNCHANGED x
Cf == [A |-> 2, tab |-> <<0, 1>>, g |-> <<1, 2>>, lr |-> <<1, 1>>, tau |-> 8, rl |-> 5, B |-> 1,
       norm |-> FALSE, bfv |-> FALSE, pc |-> 2, vc |-> 2, ec |-> 0, tr |-> FALSE,
       delta |-> 800, trunc |-> 0, opc |-> FALSE]
Qs == <<<<K, 0, -K, 3 * K>>, <<0, 0, 2 * K, -K>>, <<-2 * K, K, K, K>>>>
\* logits are not needed: probabilities stand for themselves
X(i, j, h) == [l |-> <<0, 0, 0, 0>>, p |-> P2[i] \o P2[j], hg |-> <<0, 0, 0, 0>>, q |-> Qs[h],
               lp |-> <<-5000, -9000, -2000, -K>>, v |-> <<Qs[h][1], Qs[h][4]>>]
T == X(x.i, x.j, x.h)
With(mu) == [j \in 1..2 |-> [u |-> x.s[j].u, a |-> x.s[j].a, r |-> x.s[j].r, u2 |-> x.s[j].u2,
                             nt |-> x.s[j].nt, mu |-> Row(Cf, mu.p, St(Cf, x.s[j].u)),
                             av |-> Row(Cf, mu.p, St(Cf, x.s[j].u))]]
\* n-step returns, last first, in closed form
N1 == x.s[2].r + (IF x.s[2].nt THEN MaxOf(Row(Cf, T.q, St(Cf, x.s[2].u2))) \div 2 ELSE 0)
Returns == Rev(RetsRev(Cf, x.s, IF x.s[2].nt THEN MaxOf(Row(Cf, T.q, St(Cf, x.s[2].u2))) ELSE 0))
             = <<x.s[1].r + N1 \div 2, N1>>
\* replaying experience of the very policy being learned is learning on-policy
OnPolicyReplay ==
  LET off == ACERStep([Cf EXCEPT !.trunc = 2 * K], T, T, With(T), TRUE)
      on == ACERStep(Cf, T, T, With(T), FALSE)
  IN NearSeq(off.l, on.l, 8) /\ NearSeq(off.q, on.q, 8)
\* when the action values equal the state values, Q_ret is the n-step return:
\* the value targets do not depend on the policy
Flat0 == LET c == [T EXCEPT !.q = <<K, K, -K, -K>>]
             f == ACERFold(Cf, c, c, With(T), FALSE, 0, 0, [pol |-> <<>>, val |-> <<>>, murky |-> FALSE])
         IN /\ Near(f.val[1][2], x.s[2].r - c.q[f.val[1][1]], 3)
            /\ Near(f.val[2][2], x.s[1].r + x.s[2].r \div 2 - c.q[f.val[2][1]], 3)
\* every policy move leaves the mean logit of a state alone, and a positive advantage
\* raises the logit of the taken action
Moves == LET f == ACERPol(Cf, T, With(T)[1], K, FALSE, <<65536, 65536>>)
         IN Abs(Sum(f.d)) <= 6 /\ f.d[x.s[1].a + 1] > 0
\* the trust region: the move along the average policy is bounded by delta, and moves
\* within the bound are not touched
Trust ==
  LET c == [Cf EXCEPT !.tr = TRUE]
      avg == P2[x.k]
      y == With(T)[1]
      g == ACERPol(Cf, T, y, 2 * K, FALSE, avg)
      z == ACERPol(c, T, y, 2 * K, FALSE, avg)
      dot(d) == Sum([b \in 1..2 |-> Mul(-d[b], avg[b] - Row(Cf, T.p, St(Cf, y.u))[b])])
  IN /\ ~z.murky => dot(z.d) <= 16 * c.delta + 60
     /\ dot(g.d) <= 16 * c.delta - 10 => z.d = g.d
\* a truncated weight and its correction: with c = 0 the policy moves by the expected
\* advantage of all actions, whatever was taken
Correction ==
  LET c == [Cf EXCEPT !.trunc = 1]
      y == With(X(x.k, x.k, 1))[1]
      f == ACERPol(c, T, y, K, TRUE, <<65536, 65536>>)
      p == Row(Cf, T.p, St(Cf, y.u))
      q == Row(Cf, T.q, St(Cf, y.u))
      v == VD(Cf, T, y.u)
      want(b) == Mul(p[b], q[b] - v) \div 16
  IN \A b \in 1..2 : Near(f.d[b], want(b), 30)
\* PCL: a consistent segment moves nothing
Consistent ==
  LET lp(j) == T.lp[Ix(Cf, St(Cf, x.s[j].u), x.s[j].a)]
      \* rewards that make both steps consistent
      nv == IF x.s[2].nt THEN Val(Cf, T, x.s[2].u2) \div 2 ELSE 0
      r2 == Val(Cf, T, x.s[2].u) - nv + lp(2) \div 2
      r1 == Val(Cf, T, x.s[1].u) - Val(Cf, T, x.s[2].u) \div 2 + lp(1) \div 2
      sg == <<[x.s[1] EXCEPT !.r = r1], [x.s[2] EXCEPT !.r = r2]>>
      D == PCLSeg(Cf, T, sg)
      E == PCLSeg([Cf EXCEPT !.rl = 1], T, sg)
  IN \A Y \in {D, E} : (\A j \in 1..4 : Abs(Y.l[j]) <= 8) /\ \A j \in 1..2 : Abs(Y.v[j]) <= 8
\* PCL with rollout length 1 and no entropy weight is TD(0)
TD0 == LET c == [Cf EXCEPT !.rl = 1, !.tau = 0]
           D == PCLSeg(c, T, x.s)
           td(j) == x.s[j].r + (IF x.s[j].nt THEN Val(Cf, T, x.s[j].u2) \div 2 ELSE 0) - Val(Cf, T, x.s[j].u)
       IN \A st \in 0..1 : Near(D.v[st + 1], Sum([j \in 1..2 |-> IF St(Cf, x.s[j].u) = st THEN td(j) ELSE 0]), 4)
=====================================================================================
