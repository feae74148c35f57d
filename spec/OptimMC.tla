----------------------------------- MODULE OptimMC ----------------------------------
(* Laws: copies make equal and keep apart, soft copies lie between, sums of squares    *)
(* bound steps, decay shrinks but biases, schedules are monotone between their ends.   *)
EXTENDS Optim, TLC
CONSTANTS N, BREAK
VARIABLES A, B, ms, o, n, x
Vs == {-K, 2048, 3 * K}
Os == {[kind |-> k, lr |-> 1024, alpha |-> al, eps |-> 524288, decay |-> d] :
         k \in {"rms", "sgd"}, al \in {0, 500, 990}, d \in {0, 2}}
Names == <<"W", "b">>
H(u, v) == [P |-> <<<<u>>, <<v>>>>, G |-> <<<<>>, <<>>>>, S |-> <<<<u>>>>]
Init == /\ \E u, v \in Vs : A = H(u, v) /\ B = H(v, u)
        /\ ms = <<<<0>>, <<0>>>> /\ o \in Os /\ n = 0 /\ x = [k |-> ""]
Zs == <<Upd(o, "W", A.P[1], A.G[1], ms[1]),
        Upd(o, IF BREAK = "biasdecay" THEN "W" ELSE "b", A.P[2], A.G[2], ms[2])>>
Next ==
  /\ n < N /\ n' = n + 1 /\ o' = o
  /\ \/ \E g \in {0, K} : /\ A' = [A EXCEPT !.G = <<<<g>>, <<K - g>>>>] /\ UNCHANGED <<B, ms>> /\ x' = [k |-> "g"]
     \/ /\ A' = [A EXCEPT !.P = <<Zs[1].p, Zs[2].p>>]
        /\ ms' = <<Zs[1].ms, Zs[2].ms>> /\ x' = [k |-> "u", old |-> A]
        /\ B' = IF BREAK = "alias" /\ x.k = "c" THEN [B EXCEPT !.P = A'.P] ELSE B
     \/ B' = CopyTo(B, A) /\ x' = [k |-> "c", old |-> B] /\ UNCHANGED <<A, ms>>
     \/ \E t \in {0, 3, 8} : B' = SoftTo(B, A, t) /\ x' = [k |-> "s", old |-> B, t |-> t] /\ UNCHANGED <<A, ms>>
     \/ B' = GradTo(B, A) /\ x' = [k |-> "cg", old |-> B] /\ UNCHANGED <<A, ms>>
Inside(a, b, c) == (a <= b /\ b <= c) \/ (c <= b /\ b <= a)
Copied == x.k = "c" => B.P = A.P /\ B.S = A.S /\ B.G = x.old.G
Soft == x.k = "s" => /\ \A k \in 1..2 : Inside(x.old.P[k][1], B.P[k][1], A.P[k][1])
                     /\ x.t = 8 => B.P = A.P
                     /\ x.t = 0 => B = x.old
Grads == x.k = "cg" => B.P = x.old.P /\ B.G = A.G
\* only copies change B
Apart == [][x'.k \in {"g", "u"} => B' = B]_<<A, B, ms, o, n, x>>
Biases == (x.k = "u" /\ A.G[2] = <<0>>) => A.P[2] = x.old.P[2]
\* a step of the optimizer that scales gradients is not longer than lr / sqrt(1 - alpha)
Bounded == (x.k = "u" /\ o.kind = "rms") => \A k \in 1..2 : Abs(A.P[k][1] - x.old.P[k][1]) <= 1024 * 10 + 40
Sched == \A s \in 0..9 : /\ Inside(K, Interp(s, 7, K, -K), -K)
                         /\ Interp(s, 7, K, -K) >= Interp(s + 1, 7, K, -K)
=====================================================================================
