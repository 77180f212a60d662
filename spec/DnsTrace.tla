---- MODULE DnsTrace ----
(* Checks that a recorded sequence of events is a behaviour of Dns. *)
EXTENDS Dns, IOUtils, Json

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, i
vars == <<s, i>>

Step(S, e) ==
  CASE e.e = "B" -> {Init0(e.clk)}
    [] e.e = "cf" -> {Conf(S, [srv |-> e.srv, search |-> e.search, nd |-> e.nd, tmo |-> e.tmo, att |-> e.att, look |-> e.look, hosts |-> e.hosts])}
    [] e.e = "dc" -> IF e.c \in DOMAIN S.pd THEN {} ELSE {Call(S, e.c, e)}
    [] e.e = "dq" -> Ask(S, e.c, e)
    [] e.e = "dt" -> Connect(S, e.c, e)
    [] e.e = "do" -> {Outcome(S, e.c, e.x)}
    [] e.e = "da" -> {Answer(S, e.c, e)}
    [] e.e = "dx" -> {Error(S, e.c, e.x, e.tcp)}
    [] e.e = "dr" -> IF e.c \notin DOMAIN S.pd \/ e.open # 0 THEN {} ELSE Returned(S, e.c, e.r, e.x, e.as)
    [] e.e = "t" -> {[S EXCEPT !.clk = @ + e.d]}
    [] e.e = "p" -> IF e.to # 0 /\ e.s = 1 THEN (IF MayRest(S, e.to) THEN {S} ELSE {}) ELSE {S}
    [] e.e = "q" -> {S}
    [] e.e = "k" -> {[S EXCEPT !.cc = @ \cup {e.c}]}
    [] e.e = "E" -> IF e.c \in DOMAIN S.pd THEN {} ELSE {[S EXCEPT !.cc = @ \ {e.c}]}
    [] e.e = "F" -> IF e.bad = 0 /\ e.f = 0 /\ e.n = 0 /\ e.oh = 0 /\ S.pd = <<>> THEN {S} ELSE {}
    [] OTHER -> {}

Init == i = 1 /\ s = Init0(0) /\ TLCSet(1, 1)
Next == i <= Len(T) /\ s' \in Step(s, T[i]) /\ i' = i + 1
        /\ (IF i' > TLCGet(1) THEN TLCSet(1, i') ELSE TRUE)
Spec == Init /\ [][Next]_vars
Post == PrintT(<<"REACHED", TLCGet(1), Len(T)>>)
====
