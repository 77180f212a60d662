---- MODULE UdpTrace ----
(* Checks that a recorded sequence of events is a behaviour of Udp. *)
EXTENDS Udp, IOUtils, Json

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, i
vars == <<s, i>>

Rec(e) == [o |-> e.o, s |-> e.s, t |-> e.t, bk |-> e.bk, b |-> e.b, d |-> e.d, a |-> e.a, dl |-> e.dl]

Step(S, e) ==
  CASE e.e = "B" -> {Init0(e.clk)}
    [] e.e = "un" -> Made(S, e.c, e.k, e.fam, e.a)
    [] e.e = "ui" -> {Arrive(S, e.k, e.a, e.d)}
    [] e.e = "ux" -> {RxErr(S, e.k, e.x)}
    [] e.e = "uy" -> {TxErr(S, e.k, e.x)}
    [] e.e = "W" -> {Window(S, e.k, e.n)}
    [] e.e = "u" -> Out(S, e.k, e.a, e.d)
    [] e.e = "w" -> IF e.cl = 1 /\ e.d = <<>> THEN Closed(S, e.k) ELSE {}
    [] e.e = "t" -> {[S EXCEPT !.clk = @ + e.d]}
    [] e.e = "p" -> IF e.to # 0 /\ e.s = 1 => MaySleep(S, e.to) THEN {S} ELSE {}
    [] e.e = "q" -> {IF e.n < 0 THEN S ELSE Polled(S)}
    [] e.e = "c" -> IF e.c \in DOMAIN S.pd \/ (e.s >= 0 /\ S.ob[e.s].st # "open") THEN {}
                    ELSE {Call(S, e.c, Rec(e))}
    [] e.e = "r" ->
       IF e.c \notin DOMAIN S.pd \/ S.pd[e.c].o # e.o \/ e.l = 0 THEN {}
       ELSE {x.S : x \in {y \in Results(S, e.c, e.h, e.tr) : y.r = e.r /\ y.x = e.x /\ REq(y.d, e.d)}}
    [] e.e = "k" -> {[S EXCEPT !.cc = @ \cup {e.c}]}
    [] e.e = "E" -> IF e.c \in DOMAIN S.pd THEN {} ELSE {[S EXCEPT !.cc = @ \ {e.c}]}
    [] e.e = "F" -> IF /\ e.bad = 0 /\ e.f = 0 /\ e.n = 0 /\ e.oh = 0 /\ S.pd = <<>>
                       /\ \A o \in DOMAIN S.ob : S.ob[o].st = "closed"
                    THEN {S} ELSE {}
    [] OTHER -> {}

Init == i = 1 /\ s = Init0(0) /\ TLCSet(1, 1)
Next == i <= Len(T) /\ s' \in Step(s, T[i]) /\ i' = i + 1
        /\ (IF i' > TLCGet(1) THEN TLCSet(1, i') ELSE TRUE)
Spec == Init /\ [][Next]_vars
\* The first event that no behaviour explains, or one past the end.
Post == PrintT(<<"REACHED", TLCGet(1), Len(T)>>)
====
