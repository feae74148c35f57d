-------------------------- MODULE ExplorerTrace --------------------------
(* Recorded explorer calls.  An event is N calls at one step t:            *)
(* kind const/linear: ngreedy, nrand (actions that are the greedy one, one *)
(*   of the random ones), nother, rand = counts per random action offered; *)
(*   eps20: the epsilon the explorer shows, scaled 2^20                    *)
(* kind greedy: ngreedy                                                    *)
(* kind boltz: ks (q = T ln2 k), counts                                    *)
(* kind noise: bins (counts of the standardized noise in quantile bins,    *)
(*   in hundredths probs), nlow, nhigh (exactly at a bound), nout (out of  *)
(*   bounds), conc (sign agreements between components), serial (between   *)
(*   successive calls)                                                     *)
EXTENDS Explorer, Stat, Util, TraceData
VARIABLES tid, i, st, bad
S0(c) == 0
Post(c, s, e) == s + e.N
Eps(c, t) == IF c.kind = "const" THEN EpsConst(c.start)
             ELSE EpsLinear(c.start, c.end, c.steps, t)
EpsFails(c, e) ==
  LET ep == Eps(c, e.t)
      alt == c.kind = "linear" /\ c.steps = 0 /\ e.t = 0
  IN C("every action is the greedy one or a random one", e.nother = 0 /\ e.ngreedy + e.nrand = e.N)
     \cup C("the fraction of exploring steps is epsilon(t)",
            \/ FreqOK(e.nrand, e.N, ep[1], ep[2])
            \/ alt /\ FreqOK(e.nrand, e.N, c.start, 100))
     \cup C("the epsilon shown is epsilon(t)",
            \/ Abs(e.eps14 * ep[2] - ep[1] * 16384) <= ep[2]
            \/ alt)
     \cup C("every exploring step asks the given function for its action", e.fresh)
BoltzFails(c, e) ==
  C("Boltzmann frequencies are softmax(Q / T)",
    \A a \in 1..Len(e.ks) : FreqOK(e.counts[a], e.N, Pow2(e.ks[a]), BoltzDen(e.ks)))
  \cup C("a legal action is selected", Sum(e.counts) = e.N)
NoiseFails(c, e) ==
  C("the noise has the stated distribution",
    \A k \in 1..Len(e.bins) :
       \A j \in 1..Len(e.probs) : FreqOK(e.bins[k][j], e.N, e.probs[j], 100))
  \cup C("actions are clipped to the bounds",
    /\ e.nout = 0
    /\ \A k \in 1..Len(e.nlow) :
         /\ FreqOK(e.nlow[k], e.N, e.plow, 100)
         /\ FreqOK(e.nhigh[k], e.N, e.phigh, 100))
  \cup C("components and successive calls get independent noise",
    /\ \A k \in 1..Len(e.conc) : FreqOK(e.conc[k], e.N, 1, 2)
    /\ \A k \in 1..Len(e.serial) : FreqOK(e.serial[k], e.N - 1, 1, 2))
  \cup C("the greedy action is used and left alone", e.untouched)
Fails(c, s, e) ==
  IF e.exc # "" THEN {"selecting an action raised an exception"}
  ELSE CASE c.kind \in {"const", "linear"} -> EpsFails(c, e)
         [] c.kind = "greedy" -> C("greedy always selects the greedy action", e.ngreedy = e.N)
         [] c.kind = "boltz" -> BoltzFails(c, e)
         [] OTHER -> NoiseFails(c, e)
INSTANCE TraceBase
==========================================================================
