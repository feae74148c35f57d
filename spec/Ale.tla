---------------------------------- MODULE Ale ----------------------------------
(* The emulator env.  An event is one reset or step of the env together with  *)
(* the calls it made to the emulator (inner).                                 *)
(* emulator call: [op, a, r, over, lives, scr]                                *)
(* c: skip, n (last screens), life (life loss is terminal), crop, nulls,      *)
(*    legal (the minimal action set)                                          *)
EXTENDS Util

Blank == <<0, 0, 0, 0>>
\* the frame before and the current frame of the game, in four regions
A0(c) == [over |-> FALSE, lives |-> c.lives0, prev |-> c.scr0, cur |-> c.scr0,
          screens |-> <<>>, term |-> FALSE, on |-> FALSE]

RECURSIVE ARun(_, _)
ARun(g, q) == IF q = <<>> THEN g
              ELSE ARun([prev |-> g.cur, cur |-> Head(q).scr, over |-> Head(q).over,
                         lives |-> Head(q).lives], Tail(q))
Game(s) == [prev |-> s.prev, cur |-> s.cur, over |-> s.over, lives |-> s.lives]
Max4(x, y) == [k \in 1..4 |-> Max2(x[k], y[k])]
\* a cropped screen shows only the middle of the frame
Crop(c, x) == IF c.crop THEN <<x[2], x[2], x[3], x[3]>> ELSE x

LivesBefore(s, q, k) == IF k = 1 THEN s.lives ELSE q[k - 1].lives
EndedAt(c, s, q, k) == q[k].over \/ (c.life /\ q[k].lives < LivesBefore(s, q, k))

AStepFails(c, s, e) ==
  LET q == e.inner
      n == Len(q)
      g == ARun(Game(s), q)
      fin == n > 0 /\ EndedAt(c, s, q, n)
  IN C("the chosen legal action is repeated",
       \A k \in 1..n : q[k].op = "act" /\ q[k].a = c.legal[e.a + 1])
     \cup C("it is repeated for frame_skip frames unless the episode ends",
            n \in 1..c.skip /\ (n < c.skip => fin))
     \cup C("no frame is played after the end of the episode",
            \A k \in 1..(n - 1) : ~EndedAt(c, s, q, k))
     \cup C("the reward is the sum over the frames played", e.r = Sum([k \in 1..n |-> q[k].r]))
     \cup C("terminal iff the game is over or, if so configured, a life was lost",
            e.done = fin)
     \cup C("the last screens of the episode are returned, newest last",
            IF fin THEN Len(e.obs) = c.n /\
                        (e.obs = s.screens
                         \/ SubSeq(e.obs, 1, c.n - 1) = SubSeq(s.screens, 2, c.n))
            ELSE e.obs = Append(SubSeq(s.screens, 2, c.n), Crop(c, Max4(g.prev, g.cur))))

AResetFails(c, s, e) ==
  LET q == e.inner
      g == ARun(Game(s), q)
      Over(k) == IF k = 1 THEN s.over ELSE q[k - 1].over
      acts == SelectSeq(q, LAMBDA x : x.op = "act")
  IN C("the game is restarted exactly when it is over",
       /\ \A k \in 1..Len(q) : q[k].op = "reset_game" <=> Over(k)
       /\ (s.over => q # <<>>))
     \cup C("at most max_start_nullops null actions are played",
            Len(acts) <= c.nulls /\ \A k \in 1..Len(acts) : acts[k].a = 0)
     \cup C("a reset leaves a running game", ~g.over)
     \cup C("screens from before the episode are blank",
            e.obs = Append([k \in 1..(c.n - 1) |-> Blank], Crop(c, g.cur)))

AFails(c, s, e) ==
  IF e.op = "recheck" THEN C("observations returned earlier do not change", e.same)
  ELSE C("the call succeeds", ~e.raised)
       \cup (IF e.raised THEN {}
             ELSE IF e.op = "step" THEN AStepFails(c, s, e)
             ELSE AResetFails(c, s, e)
                  \cup (IF e.op = "init" /\ c.seed >= 0
                        THEN C("the emulator is seeded with the seed given", e.seed = c.seed)
                        ELSE {}))
APost(c, s, e) ==
  IF e.op = "recheck" THEN s ELSE
  LET g == ARun(Game(s), e.inner)
  IN [s EXCEPT !.over = g.over, !.lives = g.lives, !.prev = g.prev, !.cur = g.cur,
               !.screens = e.obs, !.on = TRUE,
               !.term = IF e.op = "step" THEN e.done ELSE FALSE]
===============================================================================
