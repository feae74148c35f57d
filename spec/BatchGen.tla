------------------------------ MODULE BatchGen ------------------------------
(* Lists of windows.  A window is what ReplayBuffer stores: only its last    *)
(* transition may be terminal.                                               *)
EXTENDS Util, TLC, Json
CONSTANTS MaxLen, MaxWin, Rs
VARIABLES w, ws, gn, phi
Init == w = <<>> /\ ws = <<>> /\ gn \in 0..4 /\ phi \in {1, 2}
Tr(r, t, na) == [r |-> r, term |-> t, na |-> na]
Next ==
  /\ UNCHANGED <<gn, phi>>
  /\ Len(ws) < MaxWin
  /\ \/ /\ Len(w) < MaxLen - 1
        /\ \E r \in Rs, na \in BOOLEAN : w' = Append(w, Tr(r, FALSE, na))
        /\ ws' = ws
     \/ \E r \in Rs, t \in BOOLEAN, na \in BOOLEAN, z \in 1..2 :
          /\ ws' = Append(ws, Append(w, Tr(r, t, na \/ z = 2))) /\ w' = <<>>
Emit == (ws # <<>> /\ w = <<>>) =>
          PrintT(<<"B", ToJson([windows |-> ws, gnum |-> gn, phi |-> phi])>>)
=============================================================================
