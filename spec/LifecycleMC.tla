--------------------------- MODULE LifecycleMC ---------------------------
(* Two agents get the same training; only the first is evaluated and saved *)
(* in between.  The agent is the code's: parameters, a target copied from  *)
(* them on schedule, a buffer, the pending transition, the hidden state of *)
(* training and (separate or the same) of evaluation.                      *)
(*  Kind "plain"     act reads parameters only                             *)
(*       "pend"      stop_episode drops the pending transition (DDPG ...)  *)
(*       "separate"  own hidden state for evaluation                       *)
(*       "stateful"  one hidden state for both                             *)
(*  Mid: evaluation may happen inside training episodes                    *)
(*  Saved: the attributes written to files                                 *)
EXTENDS Lifecycle, TLC
CONSTANTS Kind, Mid, Saved, MaxOps, Obs
VARIABLES a, b, s, inep, hist, file, ld, bad, ops, evst
vars == <<a, b, s, inep, hist, file, ld, bad, ops, evst>>
Fresh(x) == [par |-> x, tgt |-> x, opt |-> 0, t |-> 0, buf |-> <<>>, pend |-> 0, tr |-> 0, te |-> 0]
H(x, o) == ((x * 3) + o) % 101
\* an update: the parameters move by what the buffer and the target say
Upd(g) == IF Len(g.buf) > 0 /\ g.t % 2 = 0
          THEN [g EXCEPT !.par = (@ + (5 * g.buf[Len(g.buf)]) + g.tgt + g.opt) % 101, !.opt = @ + 1]
          ELSE g
Sync(g) == IF g.t % 3 = 0 THEN [g EXCEPT !.tgt = g.par] ELSE g
Push(g, o) == IF g.pend # 0 THEN [g EXCEPT !.buf = Append(@, H(g.pend, o))] ELSE g
TrainAct(g, o) ==
  LET g1 == Upd(Sync(Push(g, o)))
      hid == IF Kind \in {"separate", "stateful"} THEN H(g1.tr, o) ELSE o
  IN [g |-> [g1 EXCEPT !.pend = o, !.tr = IF Kind \in {"separate", "stateful"} THEN hid ELSE 0,
                       !.t = @ + 1],
      act |-> (g1.par + hid) % 101]
TrainStop(g, o) == [g |-> [Push(g, o) EXCEPT !.pend = 0, !.tr = 0], act |-> 0]
Eval(g, o) ==
  CASE Kind = "separate" -> [g |-> [g EXCEPT !.te = H(@, o)], act |-> (g.par + H(g.te, o)) % 101]
    [] Kind = "stateful" -> [g |-> [g EXCEPT !.tr = H(@, o)], act |-> (g.par + H(g.tr, o)) % 101]
    [] OTHER -> [g |-> g, act |-> (g.par + o) % 101]
EvalStop(g) ==
  CASE Kind = "pend" -> [g EXCEPT !.pend = 0]
    [] Kind = "separate" -> [g EXCEPT !.te = 0]
    [] Kind = "stateful" -> [g EXCEPT !.tr = 0]
    [] OTHER -> g
V(g) == << [n |-> "(buffer)", d |-> <<Sum(g.buf) + Len(g.buf), Len(g.buf), Sum(g.buf), 0>>],
           [n |-> "model", d |-> <<g.par, g.par, 0, 0>>],
           [n |-> "optimizer", d |-> <<g.opt, g.opt, 0, 0>>],
           [n |-> "target_model", d |-> <<g.tgt, g.tgt, 0, 0>>] >>
LV(g) == Learned(V(g))
Cfg == [base |-> hist, tol |-> 0, evals |-> TRUE, init |-> V(Fresh(1))]
Judge(e) ==
  LET c == IF e.op = "train" THEN [Cfg EXCEPT !.base = Append(hist, [view |-> e.bview, act |-> e.bact])] ELSE Cfg
  IN /\ bad' = LFails(c, s, e)
     /\ s' = LPost(c, s, e)
     /\ hist' = IF e.op = "train" THEN Append(hist, [view |-> e.bview, act |-> e.bact]) ELSE hist
E0 == [op |-> "", exc |-> "", act |-> <<>>, view |-> <<>>, pre |-> <<>>, un |-> <<>>, d |-> 1, cact |-> <<>>, cview |-> <<>>,
       bview |-> <<>>, bact |-> <<>>]
Init == /\ a = Fresh(1) /\ b = Fresh(1) /\ s = LInit([init |-> V(Fresh(1))])
        /\ inep = FALSE /\ hist = <<>> /\ file = <<>> /\ ld = <<>> /\ bad = {} /\ ops = 0 /\ evst = 0
Train(o) ==
  LET x == TrainAct(a, o)
      y == TrainAct(b, o)
  IN /\ ld = <<>> /\ (evst = 0 \/ Mid)
     /\ a' = x.g /\ b' = y.g /\ inep' = TRUE
     /\ Judge([E0 EXCEPT !.op = "train", !.view = V(x.g), !.act = <<x.act>>,
                         !.bview = V(y.g), !.bact = <<y.act>>])
     /\ UNCHANGED <<file, ld, evst>>
Stop(o) ==
  LET x == TrainStop(a, o)
      y == TrainStop(b, o)
  IN /\ ld = <<>> /\ inep
     /\ a' = x.g /\ b' = y.g /\ inep' = FALSE
     /\ Judge([E0 EXCEPT !.op = "train", !.view = V(x.g), !.act = <<x.act>>,
                         !.bview = V(y.g), !.bact = <<y.act>>])
     /\ UNCHANGED <<file, ld, evst>>
Evaluate(o) ==
  LET x == Eval(a, o)
  IN /\ ld = <<>> /\ (Mid \/ ~inep)
     /\ a' = x.g /\ evst' = 1
     /\ Judge([E0 EXCEPT !.op = "eval", !.view = V(x.g)])
     /\ UNCHANGED <<b, inep, file, ld>>
StopEval ==
  /\ ld = <<>> /\ evst = 1
  /\ a' = EvalStop(a) /\ evst' = 0
  /\ Judge([E0 EXCEPT !.op = "eval", !.view = V(EvalStop(a))])
  /\ UNCHANGED <<b, inep, file, ld>>
Restore(g) == [g EXCEPT !.par = IF "par" \in Saved THEN file[1].par ELSE @,
                        !.tgt = IF "tgt" \in Saved THEN file[1].tgt ELSE @,
                        !.opt = IF "opt" \in Saved THEN file[1].opt ELSE @]
Save == /\ ld = <<>> /\ file' = <<a>>
        /\ Judge([E0 EXCEPT !.op = "save", !.view = V(a), !.pre = V(a)])
        /\ UNCHANGED <<a, b, inep, ld, evst>>
Load == LET g == Restore(Fresh(2))
            h == [Fresh(2) EXCEPT !.par = file[1].par, !.tgt = file[1].tgt, !.opt = file[1].opt]
        IN /\ ld = <<>> /\ file # <<>>
           /\ ld' = <<g, h>>
           /\ Judge([E0 EXCEPT !.op = "load", !.view = LV(g)])
           /\ UNCHANGED <<a, b, inep, file, evst>>
Pair(o) == LET x == TrainAct(ld[1], o)
               y == TrainAct(ld[2], o)
           IN /\ ld # <<>>
              /\ ld' = <<x.g, y.g>>
              /\ Judge([E0 EXCEPT !.op = "pair", !.act = <<x.act>>, !.cact = <<y.act>>,
                                  !.view = LV(x.g), !.cview = LV(y.g)])
              /\ UNCHANGED <<a, b, inep, file, evst>>
Next == /\ ops < MaxOps /\ ops' = ops + 1
        /\ \/ \E o \in Obs : Train(o) \/ Stop(o) \/ Evaluate(o) \/ Pair(o)
           \/ StopEval \/ Save \/ Load
Spec == Init /\ [][Next]_vars
Accepted == bad = {}
\* independent of the judge: the same training leads to the same agent
SameLearning == /\ a.par = b.par /\ a.tgt = b.tgt /\ a.opt = b.opt /\ a.buf = b.buf /\ a.t = b.t
SameHidden == evst = 0 => a.tr = b.tr /\ a.pend = b.pend
LoadedIsSaved == ld # <<>> => ld[1] = ld[2]
===========================================================================
