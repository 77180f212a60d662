---- MODULE EyesTrace ----
(* Checks that a recorded sequence of events is a behaviour of Eyes. *)
EXTENDS Eyes, IOUtils, Json

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, i
vars == <<s, i>>

Step(S, e) ==
  CASE e.e = "B" -> {Init0(e.clk)}
    [] e.e = "ds" -> Asked(S, e.c, e.fam)
    [] e.e = "da" -> {Answer(S, e.c, e.fam, e.n)}
    [] e.e = "ec" -> Attempt(S, e.c, e.k, e.fam, e.i, e.est)
    [] e.e = "es" -> {Outcome(S, e.k, e.x)}
    [] e.e = "w" -> IF e.d # <<>> /\ (e.k \notin DOMAIN S.at \/ S.at[e.k].kept = 0) THEN {}
                    ELSE IF e.cl = 1 THEN Close(S, e.k) ELSE {S}
    [] e.e = "t" -> {[S EXCEPT !.clk = @ + e.d]}
    [] e.e = "p" -> IF e.to # 0 /\ e.s = 1 THEN (IF MayRest(S, e.to) THEN {Rested(S)} ELSE {}) ELSE {S}
    [] e.e = "q" -> {S}
    [] e.e = "c" -> IF e.c \in DOMAIN S.pd THEN {} ELSE {Call(S, e.c, [dl |-> e.dl, inj |-> e.a[1], bad |-> e.a[2]])}
    [] e.e = "r" -> IF e.c \notin DOMAIN S.pd THEN {}
                    ELSE {x.S : x \in {y \in Results(S, e.c) : y.r = e.r /\ y.x = e.x /\ y.k = e.h}}
    [] e.e = "k" -> {[S EXCEPT !.cc = @ \cup {e.c}]}
    [] e.e = "E" -> IF e.c \in DOMAIN S.pd THEN {} ELSE {[S EXCEPT !.cc = @ \ {e.c}]}
    [] e.e = "F" -> IF e.bad = 0 /\ e.f = 0 /\ e.n = 0 /\ e.oh = 0 /\ S.pd = <<>> /\ \A k \in DOMAIN S.at : S.at[k].cl = 1
                    THEN {S} ELSE {}
    [] OTHER -> {}

Init == i = 1 /\ s = Init0(0) /\ TLCSet(1, 1)
Next == i <= Len(T) /\ s' \in Step(s, T[i]) /\ i' = i + 1
        /\ (IF i' > TLCGet(1) THEN TLCSet(1, i') ELSE TRUE)
Spec == Init /\ [][Next]_vars
Post == PrintT(<<"REACHED", TLCGet(1), Len(T)>>)
====
