--------------------------------- MODULE AleMC ---------------------------------
(* The frame loop over an arbitrary emulator: every step and reset it makes   *)
(* satisfies Ale, and over a whole game rewards and frames add up.            *)
EXTENDS Ale
CONSTANTS MaxFrames
VARIABLES c, s, inner, pc, left, before, lost, obs, r, done, op, frames, paid
vars == <<c, s, inner, pc, left, before, lost, obs, r, done, op, frames, paid>>
Screens == {<<1, 0, 0, 0>>, <<0, 1, 1, 0>>}
Init == /\ \E sk \in 1..3, lf \in BOOLEAN, nn \in 1..2, nu \in 0..1 :
              c = [skip |-> sk, life |-> lf, n |-> nn, nulls |-> nu, crop |-> FALSE,
                   legal |-> <<0, 3>>, lives0 |-> 1, seed |-> -1, scr0 |-> Blank]
        /\ s = A0(c) /\ inner = <<>> /\ pc = "out" /\ left = 0 /\ before = Blank
        /\ lost = FALSE /\ obs = <<>> /\ r = 0 /\ done = FALSE /\ op = "" /\ frames = 0
        /\ paid = 0
G == ARun(Game(s), inner)
\* one call on the emulator
Call(o, a) == \E x \in Screens, rw \in 0..1, ov \in BOOLEAN, lv \in 0..1 :
    /\ inner' = Append(inner, [op |-> o, a |-> a, r |-> IF o = "act" THEN rw ELSE 0,
                   over |-> IF o = "act" THEN ov ELSE FALSE,
                   lives |-> IF o = "act" THEN Min2(lv, G.lives) ELSE 1, scr |-> x])
    /\ paid' = paid + (IF o = "act" THEN rw ELSE 0)
Begin == /\ pc = "out" /\ frames < MaxFrames /\ inner' = <<>> /\ lost' = FALSE
         /\ \/ /\ op' = "reset" /\ pc' = "over" /\ \E k \in 0..c.nulls : left' = k
            \/ /\ s.on /\ ~s.term /\ op' = "step" /\ pc' = "frames" /\ left' = c.skip
         /\ paid' = 0
         /\ UNCHANGED <<c, s, before, obs, r, done, frames>>
Over == /\ pc = "over"
        /\ IF G.over THEN Call("reset_game", 0) ELSE UNCHANGED <<inner, paid>>
        /\ pc' = "nulls" /\ UNCHANGED <<c, s, left, before, lost, obs, r, done, op, frames>>
Nulls == /\ pc = "nulls"
         /\ IF left = 0
            THEN /\ obs' = Append([k \in 1..(c.n - 1) |-> Blank], G.cur)
                 /\ r' = 0 /\ done' = FALSE /\ pc' = "ret" /\ UNCHANGED <<inner, paid, left>>
            ELSE Call("act", 0) /\ left' = left - 1 /\ pc' = "over" /\ UNCHANGED <<obs, r, done>>
         /\ UNCHANGED <<c, s, before, lost, op, frames>>
Play == /\ pc = "frames" /\ left > 0 /\ Call("act", 3)
        /\ before' = (IF left = 1 THEN G.cur ELSE before)
        /\ lost' = (Last(inner').lives < G.lives)
        /\ left' = (IF Last(inner').over \/ (c.life /\ lost') THEN 0 ELSE left - 1)
        /\ UNCHANGED <<c, s, pc, obs, r, done, op, frames>>
Look == /\ pc = "frames" /\ left = 0 /\ pc' = "ret"
        /\ done' = (G.over \/ (c.life /\ lost))
        /\ obs' = IF done' THEN s.screens
                  ELSE Append(SubSeq(s.screens, 2, c.n), Max4(before, G.cur))
        /\ r' = paid
        /\ UNCHANGED <<c, s, inner, left, before, lost, op, frames, paid>>
Event == [op |-> op, a |-> 1, inner |-> inner, raised |-> FALSE, obs |-> obs, r |-> r,
          done |-> done]
Ret == /\ pc = "ret" /\ s' = APost(c, s, Event) /\ pc' = "out"
       /\ frames' = frames + 1
       /\ inner' = <<>> /\ left' = 0 /\ lost' = FALSE /\ before' = Blank /\ paid' = 0
       /\ UNCHANGED <<c, obs, r, done, op>>
Next == Begin \/ Over \/ Nulls \/ Play \/ Look \/ Ret
Conforms == pc = "ret" => AFails(c, s, Event) = {}
Bounded == pc = "out" /\ s.on => Len(s.screens) = c.n
===============================================================================
