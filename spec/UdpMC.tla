---- MODULE UdpMC ----
(* Every program of at most K calls and environment steps on two UDP sockets,
   the first of which has a remote address: model checking of Udp, and the
   source of the scripts that are replayed in the real library.
   g holds what is known from outside: the datagrams that arrived on each socket
   (arr), those that were received or refused for their size (got), what went out
   (wire) and what successful sends carried (sent). *)
EXTENDS Udp

CONSTANTS K,       \* steps of a program
          OPS,     \* calls and events
          DLS,     \* deadlines, relative; 999: none
          WKS,     \* coroutines
          EMIT

TS(x) == ToString(x)
VARIABLES s, h, g
vars == <<s, h, g>>

\* the addresses of the others, as the driver has them
A(x) == <<10, 0, 0, 1 + (x % 2), 0, 100 + ((x \div 2) % 2)>>
Rem == A(0)
Socks == {0, 1}
Lists == {<<>>, <<<<1, 1>>>>, <<<<2, 1>>>>, <<<<1, 0>>, <<1, 1>>>>}
LTxt(b) == IF b = <<>> THEN "-"
           ELSE FoldLeft(LAMBDA a, x : (IF a = "" THEN "" ELSE a \o ",") \o TS(x[1]) \o (IF x[2] = 1 THEN "" ELSE "n"), "", b)

Ob(k, r) == [st |-> "open", k |-> k, rem |-> r]
Setup == <<"S udp 0 1", "S udp 0 0">>
Init == /\ s = [Init0(1000) EXCEPT !.sk = TLCEval([k \in Socks |-> NewSock(4, <<>>)]),
                                   !.ob = TLCEval([k \in Socks |-> Ob(k, IF k = 0 THEN Rem ELSE <<>>)])]
        /\ h = Setup
        /\ g = [arr |-> [k \in Socks |-> <<>>], got |-> [k \in Socks |-> <<>>],
                wire |-> [k \in Socks |-> <<>>], sent |-> [k \in Socks |-> <<>>], err |-> [k \in Socks |-> 0],
                lost |-> [k \in Socks |-> 0], n |-> 0]

Rec(o, ob, b, d, a, dl) == [o |-> o, s |-> ob, t |-> "", bk |-> IF o = "urecv" /\ b = <<>> THEN 2 ELSE 0, b |-> b, d |-> d, a |-> a,
   dl |-> IF dl >= 999 THEN -1 ELSE s.clk + dl]
Line(w, o, ob, dl, x) == "C " \o TS(w) \o " " \o o \o " " \o TS(ob) \o " " \o TS(IF dl >= 999 THEN -1 ELSE dl) \o (IF x = "" THEN "" ELSE " " \o x)
Data(n) == Lit(TLCEval([i \in 1..n |-> 33 + ((g.n * 5 + i) % 60)]))

Idle(w) == w \notin DOMAIN s.pd /\ w \notin s.cc
Open == {o \in DOMAIN s.ob : s.ob[o].st = "open" /\ \A w \in DOMAIN s.pd : s.pd[w].s = o => s.pd[w].o # "hclose"}
Calls(w) == UNION {
  (IF "usend" \in OPS THEN {<<Rec("usend", o, <<<<n, 1>>>>, Data(n), IF x < 0 THEN <<>> ELSE A(x), 999),
      Line(w, "usend", o, 999, TS(n) \o " " \o TS(x))>> : n \in {0, 2}, x \in {-1, 0, 1}} ELSE {})
  \cup (IF "urecv" \in OPS THEN {<<Rec("urecv", o, b, <<>>, <<x>>, dl),
      Line(w, "urecv", o, dl, TS(x) \o " " \o LTxt(b))>> : b \in Lists, x \in {0, 1}, dl \in DLS} ELSE {})
  \cup (IF "hclose" \in OPS /\ \A v \in DOMAIN s.pd : s.pd[v].s # o
        THEN {<<Rec("hclose", o, <<>>, <<>>, <<>>, 999), Line(w, "hclose", o, 999, "")>>} ELSE {})
  : o \in Open }

Emit(x) == IF EMIT THEN PrintT(<<"SCRIPT", x>>) ELSE TRUE
Room == Len(h) < K + Len(Setup)
Rest == \A w \in DOMAIN s.pd : ~Ready(s, s.pd[w]) /\ ~Late(s, s.pd[w]) /\ w \notin s.cc

DoCall ==
  /\ Room /\ Rest
  /\ \E w \in {v \in 1..WKS : Idle(v) /\ \A u \in 1..(v-1) : ~Idle(u)} : \E c \in Calls(w) :
       /\ s' = Call(s, w, c[1])
       /\ h' = Append(h, c[2])
       /\ g' = [g EXCEPT !.n = @ + 1]
  /\ Emit(h')

\* The library: a datagram goes out, a socket is closed, a call returns.
Emits ==
  /\ \E w \in DOMAIN s.pd : LET p == s.pd[w] IN
     /\ p.o = "usend" /\ p.im = {} /\ p.sent = 0
     /\ LET k == s.ob[p.s].k IN
        /\ s' \in Out(s, k, Dest(s, p), p.d)
        /\ g' = [g EXCEPT !.wire[k] = Append(@, <<Dest(s, p), p.d>>)]
  /\ h' = h
Ret ==
  /\ \E w \in DOMAIN s.pd : LET p == s.pd[w]  k == s.ob[p.s].k
                                cl == IF p.o = "hclose" /\ s.sk[k].cl = 0 THEN Closed(s, k) ELSE {s}
                                i == IF p.o = "urecv" THEN Mine(s, p.s) ELSE 0 IN
     \E y \in UNION {Results(x, w, -1, 0) : x \in cl} :
        /\ (p.o = "usend" /\ y.r = 0 /\ p.sent = 0) => Out(s, k, Dest(s, p), p.d) = {}
        /\ s' = y.S
        /\ g' = CASE p.o = "usend" /\ y.r = 0 /\ p.sent = 1 -> [g EXCEPT !.sent[k] = Append(@, <<Dest(s, p), p.d>>)]
                  [] p.o = "usend" /\ y.r = 0 /\ p.sent = 0 -> [g EXCEPT !.lost[k] = @ + 1]
                  [] p.o = "urecv" /\ i # 0 /\ (y.r >= 0 \/ y.x = "EMSGSIZE") ->
                       [g EXCEPT !.got[k] = Append(@, <<s.sk[k].in[i], p, y>>)]
                  [] OTHER -> g
  /\ h' = h

Env ==
  /\ Room /\ Rest
  /\ \E k \in {x \in Socks : s.sk[x].cl = 0} :
     \/ /\ "arrive" \in OPS
        /\ \E x \in {0, 1, 2}, n \in {0, 2} : LET d == Lit(TLCEval([i \in 1..n |-> 65 + Len(g.arr[k]) * 3 + i])) IN
           /\ s' = Arrive(s, k, A(x), d) /\ h' = Append(h, "@d " \o TS(k) \o " " \o TS(x) \o " " \o TS(n))
           /\ g' = [g EXCEPT !.arr[k] = Append(@, <<A(x), d>>)]
     \/ /\ "rxerr" \in OPS /\ s.sk[k].err = ""
        /\ s' = RxErr(s, k, "ECONNREFUSED") /\ h' = Append(h, "@r " \o TS(k) \o " 1") /\ g' = [g EXCEPT !.err[k] = 1]
     \/ /\ "txerr" \in OPS /\ LET x == IF s.sk[k].tx = "" THEN 1 ELSE 0 IN
           s' = TxErr(s, k, IF x = 1 THEN "EPERM" ELSE "") /\ h' = Append(h, "@u " \o TS(k) \o " " \o TS(x)) /\ g' = g
     \/ /\ "full" \in OPS /\ LET x == IF s.sk[k].win = 0 THEN -1 ELSE 0 IN
           s' = Window(s, k, x) /\ h' = Append(h, "@W " \o TS(k) \o " " \o TS(x)) /\ g' = g
     \/ LET D == {s.pd[w].dl : w \in DOMAIN s.pd} \ {-1} IN
        /\ k = 0 /\ D # {}
        /\ LET d == (CHOOSE x \in D : \A y \in D : x <= y) - s.clk IN
           /\ d > 0
           /\ s' = Polled([s EXCEPT !.clk = @ + d]) /\ h' = Append(h, "@t " \o TS(d)) /\ g' = g
     \/ /\ k = 0 /\ "cancel" \in OPS
        /\ \E w \in DOMAIN s.pd : s' = [s EXCEPT !.cc = @ \cup {w}] /\ h' = Append(h, "X " \o TS(w)) /\ g' = g
  /\ Emit(h')

Next == DoCall \/ Emits \/ Ret \/ Env
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* U01 on the specification *)
\* The datagrams received are those that arrived from whom they may, each at most
\* once, whole, in order; nothing that could have been had is skipped.
Fit(k) == SelectSeq(g.arr[k], LAMBDA x : k # 0 \/ x[1] = Rem)
GotInOrder == \A k \in Socks :
  LET F == Fit(k) IN
  /\ Len(g.got[k]) <= Len(F)
  /\ \A i \in 1..Len(g.got[k]) : LET e == g.got[k][i]  p == e[2]  y == e[3]  n == RLen(F[i][2]) IN
       /\ e[1] = F[i]
       /\ IF p.bk = 0 /\ BLen(p.b) < n THEN y.x = "EMSGSIZE"
          ELSE y.r = n /\ REq(y.d, RCat(IF p.a[1] = 1 THEN Lit(F[i][1]) ELSE <<>>, Vis(F[i][2], p.b)))
\* What goes out is what successful sends carried, one datagram each, in order
\* (and that of a send in progress); sends never wait.
OnlySends == \A k \in Socks :
  /\ Len(g.sent[k]) <= Len(g.wire[k]) /\ SubSeq(g.wire[k], 1, Len(g.sent[k])) = g.sent[k]
  /\ Len(g.wire[k]) - Len(g.sent[k]) = Cardinality({w \in DOMAIN s.pd : s.pd[w].o = "usend" /\ s.pd[w].sent = 1 /\ s.ob[s.pd[w].s].k = k})
NoRemote == \A k \in Socks : \A i \in 1..Len(g.wire[k]) : g.wire[k][i][1] # <<>>
Decided == \A w \in DOMAIN s.pd : LET p == s.pd[w] IN
  (Ready(s, p) /\ p.o # "hclose") => Results(s, w, -1, 0) # {} \/ \E x \in Out(s, s.ob[p.s].k, Dest(s, p), p.d) : TRUE
Patient == \A w \in DOMAIN s.pd : (~Ready(s, s.pd[w]) /\ ~Late(s, s.pd[w]) /\ w \notin s.cc) => Results(s, w, -1, 0) = {}
AtMostOne == \A o \in DOMAIN s.ob : Cardinality({w \in DOMAIN s.pd : s.pd[w].s = o /\ s.pd[w].o = "urecv" /\ s.pd[w].im = {}}) <= 1
Inv == GotInOrder /\ OnlySends /\ NoRemote /\ Decided /\ Patient /\ AtMostOne

Rel(p) == [p EXCEPT !.dl = IF @ < 0 THEN -1 ELSE @ - s.clk]
View == <<[s EXCEPT !.clk = 0, !.pd = [w \in DOMAIN s.pd |-> Rel(s.pd[w])]], g, Len(h)>>
====
