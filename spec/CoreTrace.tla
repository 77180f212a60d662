----------------------------- MODULE CoreTrace -----------------------------
(* Checks that a recorded sequence of events is a behaviour of Core. *)
EXTENDS Core, IOUtils, Json

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, i
vars == <<s, i>>

Init == i = 1 /\ s = [Init0("epoll", 0) EXCEPT !.ph = "dead"] /\ TLCSet(1, 1)

Next ==
  \/ i <= Len(T) /\ s' \in Step(s, T[i]) /\ i' = i + 1
     /\ (IF i' > TLCGet(1) THEN TLCSet(1, i') ELSE TRUE)
  \/ s' \in Silent(s) /\ i' = i

Spec == Init /\ [][Next]_vars

(* The first event that no behaviour explains, or one past the end. *)
Post == PrintT(<<"REACHED", TLCGet(1), Len(T)>>)
View == <<i, s>>
=============================================================================
