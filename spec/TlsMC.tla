---- MODULE TlsMC ----
(* Every program of at most K calls and environment steps on a TLS socket whose
   handshake is over: model checking of Tls, and the source of the scripts that
   are replayed in the real library. Objects: 0 the TCP socket, 1 the TLS socket
   on top of it.
   g holds what is known from outside: the bytes of data that arrived, and of
   those that were received by successful calls (arr, got; rarr, rgot the same
   for those after the end of TLS), the bytes successful sends carried, and the
   bytes the peer has got (sent, wire; rwire after the end of TLS); eof, ended: the
   peer's end of data has arrived, was reported; dead: the peer's stream was
   tampered with; fail: a send has failed; n: the number of calls. *)
EXTENDS Tls

CONSTANTS K,       \* steps of a program
          OPS,     \* calls and events
          DLS,     \* deadlines, relative; 999: none
          WKS,     \* coroutines
          EMIT

TS(x) == ToString(x)
VARIABLES s, h, g
vars == <<s, h, g>>

Lists == {<<<<1, 1>>>>, <<<<2, 1>>>>, <<<<1, 0>>, <<1, 1>>>>}
LTxt(b) == FoldLeft(LAMBDA a, x : (IF a = "" THEN "" ELSE a \o ",") \o TS(x[1]) \o (IF x[2] = 1 THEN "" ELSE "n"), "", b)

Setup(r) == <<"S tcp -1 0", "T " \o TS(r)>>
Len0 == 2
Init == /\ s = [Init0(1000) EXCEPT !.cn = (0 :> [NewConn(-1, 0) EXCEPT !.hs = TRUE]),
                                   !.ob = (0 :> [NewOb("raw", 0, -1) EXCEPT !.st = "under"]) @@ (1 :> NewOb("tls", 0, 0))]
        \* client or server, of TLS 1.2 or 1.3
        /\ h \in {Setup(r) : r \in 0..3}
        /\ g = [arr |-> <<>>, got |-> <<>>, rarr |-> <<>>, rgot |-> <<>>, sent |-> <<>>, wire |-> <<>>,
                rwire |-> <<>>, eof |-> 0, ended |-> 0, dead |-> 0, n |-> 0, fail |-> 0]

Rec(o, ob, b, d, dl) == [o |-> o, s |-> ob, t |-> "", bk |-> 0, b |-> b, d |-> d, a |-> <<>>, k |-> -1,
   dl |-> IF dl >= 999 THEN -1 ELSE s.clk + dl]
Line(w, o, ob, dl, x) == "C " \o TS(w) \o " " \o o \o " " \o TS(ob) \o " " \o TS(IF dl >= 999 THEN -1 ELSE dl) \o (IF x = "" THEN "" ELSE " " \o x)
Data(n) == Lit(TLCEval([i \in 1..n |-> 33 + ((g.n * 5 + i) % 60)]))

Idle(w) == w \notin DOMAIN s.pd /\ w \notin s.cc
Open == {o \in DOMAIN s.ob : s.ob[o].st = "open" /\ \A w \in DOMAIN s.pd : s.pd[w].s = o => s.pd[w].o \notin {"hclose", "tdetach"}}
Unused(o) == \A v \in DOMAIN s.pd : s.pd[v].s # o
Calls(w) == UNION {
  (IF "bsend" \in OPS THEN {<<Rec("bsend", o, <<<<n, 1>>>>, Data(n), dl), Line(w, "bsend", o, dl, TS(n))>> : n \in {0, 2}, dl \in DLS} ELSE {})
  \cup (IF "brecv" \in OPS THEN {<<Rec("brecv", o, b, <<>>, dl), Line(w, "brecv", o, dl, LTxt(b))>> : b \in Lists, dl \in DLS} ELSE {})
  \cup (IF "tdone" \in OPS /\ s.ob[o].ty = "tls" THEN {<<Rec("tdone", o, <<>>, <<>>, 999), Line(w, "tdone", o, 999, "")>>} ELSE {})
  \cup (IF "tdetach" \in OPS /\ s.ob[o].ty = "tls" /\ Unused(o)
        THEN {<<Rec("tdetach", o, <<>>, <<>>, dl), Line(w, "tdetach", o, dl, "")>> : dl \in DLS} ELSE {})
  \cup (IF "hclose" \in OPS /\ Unused(o) THEN {<<Rec("hclose", o, <<>>, <<>>, 999), Line(w, "hclose", o, 999, "")>>} ELSE {})
  : o \in Open }

Emit(x) == IF EMIT THEN PrintT(<<"SCRIPT", x>>) ELSE TRUE
Space == Len(h) < K + Len0
C == s.cn[0]
Rest == \A w \in DOMAIN s.pd : ~Ready(s, s.pd[w]) /\ ~Late(s, s.pd[w]) /\ w \notin s.cc

DoCall ==
  /\ Space /\ Rest
  /\ \E w \in {v \in 1..WKS : Idle(v) /\ \A u \in 1..(v-1) : ~Idle(u)} : \E c \in Calls(w) :
       /\ s' = Call(s, w, c[1])
       /\ h' = Append(h, c[2])
       /\ g' = [g EXCEPT !.n = @ + 1]
  /\ Emit(h')

\* The library: data go out, the peer is told of the end, a call returns.
Emits ==
  /\ C.cl = 0 /\ C.win # 0 /\ C.tx = "" /\ ~C.bad
  /\ \/ \E w \in DOMAIN s.pd : LET p == s.pd[w] IN
          /\ p.o = "bsend" /\ p.im = {} /\ p.sent < RLen(p.d)
          /\ s' \in Out(s, 0, RDrop(p.d, p.sent), s.ob[p.s].ty)
          /\ g' = IF s.ob[p.s].ty = "tls" THEN [g EXCEPT !.wire = RCat(@, RDrop(p.d, p.sent))] ELSE [g EXCEPT !.rwire = RCat(@, RDrop(p.d, p.sent))]
     \/ /\ s' \in Over(s, 0) /\ g' = g
  /\ h' = h
Ret ==
  /\ \E w \in DOMAIN s.pd : LET p == s.pd[w]  t == s.ob[p.s].ty IN
     \* what fails finally closes the connection, and so does what must
     \E x \in (IF p.o \in {"hclose", "tdetach"} /\ C.cl = 0 THEN Closed(s, 0) \cup {s} ELSE {s}) :
     \E y \in Results(x, w, IF p.o = "tdetach" THEN 0 ELSE -1, 0) :
        /\ s' = y.S
        /\ g' = CASE p.o = "bsend" /\ y.r = 0 /\ t = "tls" -> [g EXCEPT !.sent = RCat(@, p.d)]
                  [] p.o = "bsend" /\ y.r = -1 /\ p.im = {} /\ t = "tls" -> [g EXCEPT !.fail = 1]
                  [] p.o = "brecv" /\ y.r = 0 -> LET n == BLen(p.b)  f == Ahead(C.inq, Kind(s.ob[p.s])) IN
                       IF t = "tls" THEN [g EXCEPT !.got = RCat(@, RTake(f, n))] ELSE [g EXCEPT !.rgot = RCat(@, RTake(f, n))]
                  [] p.o = "brecv" /\ y.x = "EPIPE" /\ t = "tls" -> [g EXCEPT !.ended = 1]
                  [] OTHER -> g
  /\ h' = h

\* what the peer says arrives in whole, or a part of it later ("@f")
Env ==
  /\ Space /\ Rest /\ C.cl = 0
  /\ LET say == C.tail = "" /\ C.units = <<>> IN
     \/ \E t \in {"d", "x", "r"} \cap OPS : \E n \in {1, 3} : \E part \in ({0} \cup IF "part" \in OPS THEN {1} ELSE {}) :
          /\ say /\ ~C.bad
          /\ (t = "r") = (g.eof = 1)
          /\ LET d == Lit(TLCEval([i \in 1..n |-> 65 + ((RLen(g.arr) + RLen(g.rarr) + i) % 60)]))
                 m == IF t = "r" THEN n ELSE n + 30  \* the length of what is said does not matter
                 x == Say(s, 0, t, m, d) IN
             /\ ~(t = "r" /\ part = 1)
             /\ s' = IF part = 1 THEN Arrive(x, 0, 6) ELSE Arrive(x, 0, m)
             /\ h' = h \o (<<"@" \o t \o " 0 " \o TS(n)>> \o (IF part = 1 THEN <<"@f 0 6">> ELSE <<"@f 0 0">>))
             /\ g' = IF part = 1 \/ t = "x" THEN [g EXCEPT !.dead = IF t = "x" THEN 1 ELSE @]
                     ELSE IF t = "r" THEN [g EXCEPT !.rarr = RCat(@, d)] ELSE [g EXCEPT !.arr = RCat(@, d)]
     \/ /\ C.units # <<>> /\ C.tail = ""
        /\ s' = Arrive(s, 0, Head(C.units).n - C.got) /\ h' = Append(h, "@f 0 0")
        /\ g' = IF Head(C.units).t = "d" THEN [g EXCEPT !.arr = RCat(@, Head(C.units).d)] ELSE g
     \/ /\ "cn" \in OPS /\ say /\ ~C.bad /\ g.eof = 0
        /\ s' = Arrive(Say(s, 0, "cn", 20, <<>>), 0, 20)
        /\ h' = h \o <<"@c 0 0", "@f 0 0">> /\ g' = [g EXCEPT !.eof = 1]
     \/ \E x \in {1, 2} : /\ "end" \in OPS /\ C.tail = ""
        /\ s' = (LET y == EndIn(s, 0, IF x = 1 THEN "EPIPE" ELSE "ECONNRESET") IN IF x = 2 /\ C.tx = "" THEN TxErr(y, 0, "EPIPE") ELSE y)
        /\ h' = Append(h, "@z 0 " \o TS(x)) /\ g' = g
     \/ /\ "txerr" \in OPS /\ C.tx = "" /\ s' = TxErr(s, 0, "EPIPE") /\ h' = Append(h, "@y 0") /\ g' = g
     \/ /\ "full" \in OPS /\ LET x == IF C.win = 0 THEN -1 ELSE 0 IN
           s' = Window(s, 0, x) /\ h' = Append(h, "@W 0 " \o TS(x)) /\ g' = g
     \/ LET D == {s.pd[w].dl : w \in DOMAIN s.pd} \ {-1} IN
        /\ D # {}
        /\ LET d == (CHOOSE x \in D : \A y \in D : x <= y) - s.clk IN
           /\ d > 0
           /\ s' = Polled([s EXCEPT !.clk = @ + d]) /\ h' = Append(h, "@t " \o TS(d)) /\ g' = g
     \/ /\ "cancel" \in OPS
        /\ \E w \in DOMAIN s.pd : s' = [s EXCEPT !.cc = @ \cup {w}] /\ h' = Append(h, "X " \o TS(w)) /\ g' = g
  /\ Emit(h')

Next == DoCall \/ Emits \/ Ret \/ Env
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* T01 on the specification *)
Prefix(a, b) == RLen(a) <= RLen(b) /\ REq(a, RTake(b, RLen(a)))
\* What is received is what arrived, every byte once and in order; what follows
\* after the end of TLS is for the socket below, intact.
Stream == Prefix(g.got, g.arr) /\ Prefix(g.rgot, g.rarr)
\* What the peer gets is what successful sends carried; more only while a send is
\* in progress, or after one has failed.
Sends1 == LET m == {w \in DOMAIN s.pd : s.pd[w].o = "bsend" /\ s.ob[s.pd[w].s].ty = "tls" /\ s.pd[w].sent > 0} IN
  (~C.bad /\ g.dead = 0) => Prefix(g.sent, g.wire) /\ (m = {} /\ g.fail = 0 => RLen(g.sent) = RLen(g.wire))
\* There is no end of data before the peer says so.
TrueEnd == g.ended = 1 => g.eof = 1 \/ C.tail # ""
\* A TLS socket that was given up leaves its socket open only if both have ended.
CleanDetach == s.ob[0].st = "open" => C.over /\ (g.eof = 1 \/ C.tail # "")
Nothing2 == C.cl = 1 => \A o \in DOMAIN s.ob : s.ob[o].st # "open" \/ \E w \in DOMAIN s.pd : s.pd[w].s \in {o, 1}
Decided == \A w \in DOMAIN s.pd : LET p == s.pd[w] IN
  Ready(s, p) => (\E x \in {s} \cup Closed(s, 0) : Results(x, w, IF p.o = "tdetach" THEN 0 ELSE -1, 0) # {})
                 \/ (p.o = "bsend" /\ p.sent < RLen(p.d)) \/ ~C.over
Patient == \A w \in DOMAIN s.pd : (~Ready(s, s.pd[w]) /\ ~Late(s, s.pd[w]) /\ w \notin s.cc) => s.pd[w].sent < RLen(s.pd[w].d) \/
             (\A x \in {s} \cup Closed(s, 0) : Results(x, w, IF s.pd[w].o = "tdetach" THEN 0 ELSE -1, 0) = {}) \/ C.bad \/ C.win = 0
AtMostOne == \A o \in DOMAIN s.ob : /\ Cardinality({w \in DOMAIN s.pd : s.pd[w].s = o /\ s.pd[w].o = "brecv" /\ s.pd[w].im = {}}) <= 1
                                    /\ Cardinality({w \in DOMAIN s.pd : s.pd[w].s = o /\ s.pd[w].o \in Sends /\ s.pd[w].im = {}}) <= 1
Inv == Stream /\ Sends1 /\ TrueEnd /\ CleanDetach /\ Nothing2 /\ Decided /\ Patient /\ AtMostOne

Rel(p) == [p EXCEPT !.dl = IF @ < 0 THEN -1 ELSE @ - s.clk]
View == <<[s EXCEPT !.clk = 0, !.pd = [w \in DOMAIN s.pd |-> Rel(s.pd[w])]], g, Len(h), h[2]>>
====
