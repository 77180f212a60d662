---- MODULE Tls ----
(* libdill's TLS sockets over one TCP or IPC connection each, with a peer that
   is a TLS implementation of its own. What TLS looks like on the wire is none of
   this specification's business: what the peer says is a sequence of pieces of
   so and so many bytes,
     h   of the handshake, or otherwise without data
     d   a record of data
     cn  the peer's end of data
     x   a piece that was tampered with; the peer is silent after that
     r   bytes that follow after the peer's end of TLS
   and what the library says is known as what the peer makes of it. *)
EXTENDS Rope, FiniteSets

Hi(a, b) == IF a > b THEN a ELSE b
Lo(a, b) == IF a < b THEN a ELSE b
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Del(f, k) == TLCEval([x \in DOMAIN f \ {k} |-> f[x]])

Init0(clk) == [clk |-> clk, cn |-> <<>>, ob |-> <<>>, pd |-> <<>>, cc |-> {}]

(* A connection. units: what the peer has said and the network has not delivered
   entirely, got: what it has of the first one; inq: what has arrived and was not
   received; tail: how the inbound stream has ended, "" not at all; tx: the error
   of sends; win: 0 if there is no room for sends; frag: the
   system may split what it accepts; hs: the peer has finished its
   handshake; over: the peer has seen the library's end of data; bad: the peer's
   stream was tampered with; cl: the library has closed the connection *)
NewConn(win, frag) == [frag |-> frag, units |-> <<>>, got |-> 0, inq |-> <<>>, tail |-> "", tx |-> "", win |-> win,
                 hs |-> FALSE, over |-> FALSE, bad |-> FALSE, cl |-> 0]
(* An object. in, out: what further receives and sends fail with *)
NewOb(ty, k, u) == [ty |-> ty, st |-> "open", k |-> k, u |-> u, in |-> "", out |-> ""]

BLen(b) == FoldLeft(LAMBDA a, x : a + x[1], 0, b)
RECURSIVE Vis(_, _)
Vis(r, b) == IF b = <<>> \/ r = <<>> THEN <<>>
             ELSE LET n == Lo(b[1][1], RLen(r)) IN
                  IF b[1][2] = 1 THEN RCat(RTake(r, n), Vis(RDrop(r, n), Tail(b)))
                  ELSE Vis(RDrop(r, n), Tail(b))

---------------------------------------------------------------------------
(* What has arrived *)

RECURSIVE Deliver(_, _)
Deliver(c, n) ==
  IF n = 0 THEN c
  ELSE LET u == Head(c.units)  m == Lo(n, u.n - c.got)  all == c.got + m = u.n
           new == IF u.t = "r" THEN <<[t |-> "r", d |-> RTake(RDrop(u.d, c.got), m)]>>
                  ELSE IF all /\ u.t # "h" THEN <<[t |-> u.t, d |-> u.d]>> ELSE <<>> IN
       Deliver([c EXCEPT !.units = IF all THEN Tail(@) ELSE @, !.got = IF all THEN 0 ELSE @ + m,
                         !.inq = @ \o new], n - m)

\* the data in front of the queue, t: of which kind
RECURSIVE Ahead(_, _)
Ahead(q, t) == IF q = <<>> \/ Head(q).t # t THEN <<>> ELSE RCat(Head(q).d, Ahead(Tail(q), t))
RECURSIVE After(_, _)      \* the queue after that
After(q, t) == IF q = <<>> \/ Head(q).t # t THEN q ELSE After(Tail(q), t)
RECURSIVE Eat(_, _)
Eat(q, n) == IF n = 0 THEN q
             ELSE LET u == Head(q)  l == RLen(u.d) IN
                  IF n >= l THEN Eat(Tail(q), n - l)
                  ELSE <<[u EXCEPT !.d = RDrop(@, n)]>> \o Tail(q)
Kind(o) == IF o.ty = "tls" THEN "d" ELSE "r"
\* what comes after the data: "" nothing yet
Term(c, t) == LET q == After(c.inq, t) IN IF q # <<>> THEN Head(q).t ELSE c.tail

---------------------------------------------------------------------------
(* Calls, p: [o, s, t, bk, b, d, a, dl, k]
   fromfd: k = the connection
   tattach: a = <<no memory given, bad certificate, client?>>
   bsend, brecv, tdone, tdetach, hclose
   twrong: a call for another kind of object; t = what is wrong *)

Sends == {"bsend", "tdone"}
Busy(S, p, ops) == \E w \in DOMAIN S.pd : S.pd[w].o \in ops /\ S.pd[w].s = p.s /\ S.pd[w].im = {}
NN(x) == IF x = "" THEN {} ELSE {x}
\* broken pipes are reported as connections that were reset
Tx(c) == IF c.tx = "" THEN {} ELSE {"ECONNRESET"}

\* errors that are there at once
Im(S, p) ==
  CASE p.o = "tattach" -> (IF p.a[1] = 1 THEN {"EINVAL"} ELSE {}) \cup (IF p.a[2] = 1 THEN {"EFAULT"} ELSE {})
    [] p.o = "bsend" -> (IF p.bk # 0 THEN {"EINVAL"} ELSE {}) \cup NN(S.ob[p.s].out)
         \cup (IF Busy(S, p, Sends) THEN {"EBUSY"} ELSE {})
    [] p.o = "brecv" -> (IF p.bk \notin {0, 2} THEN {"EINVAL"} ELSE {}) \cup NN(S.ob[p.s].in)
         \cup (IF Busy(S, p, {"brecv"}) THEN {"EBUSY"} ELSE {})
    [] p.o = "tdone" -> NN(S.ob[p.s].out) \cup (IF Busy(S, p, Sends) THEN {"EBUSY"} ELSE {})
    [] p.o = "tdetach" -> IF "ECONNRESET" \in {S.ob[p.s].in, S.ob[p.s].out} THEN {"ECONNRESET"} ELSE {}
    [] p.o = "twrong" -> {p.t}
    [] OTHER -> {}

Conn(S, p) == S.cn[IF p.o = "fromfd" THEN p.k ELSE S.ob[p.s].k]
Room(c) == c.win # 0 \/ c.tx # ""
\* Must the call do something without anything else happening?
Ready(S, p) ==
  IF p.im # {} THEN TRUE ELSE
  CASE p.o = "tattach" -> LET c == Conn(S, p) IN
         \* the peer answers at once: if all of it has arrived it is the library's turn
         c.units = <<>> /\ Room(c)
    [] p.o \in {"bsend", "tdone"} -> LET c == Conn(S, p) IN c.bad = FALSE /\ Room(c)
    [] p.o = "brecv" -> LET c == Conn(S, p)  t == Kind(S.ob[p.s]) IN
         \/ RLen(Ahead(c.inq, t)) >= BLen(p.b)
         \/ Term(c, t) # "" /\ (Term(c, t) = "x" => Room(c))
    [] p.o = "tdetach" -> LET c == Conn(S, p) IN
         IF S.ob[p.s].out = "" /\ ~c.over THEN c.bad = FALSE /\ Room(c)
         ELSE S.ob[p.s].in = "EPIPE" \/ Ahead(c.inq, "d") # <<>> \/ (Term(c, "d") # "" /\ (Term(c, "d") = "x" => Room(c)))
    [] OTHER -> TRUE
\* ... without waiting for anything at all?
Now(S, p) == p.im # {} \/ (Ready(S, p) /\ CASE p.o \in {"tattach", "tdetach"} -> FALSE
                             [] p.o \in Sends -> Conn(S, p).win = -1 /\ Conn(S, p).tx = "" /\ Conn(S, p).frag = 0
                             \* an end in the middle of something takes a second look
                             [] p.o = "brecv" -> LET c == Conn(S, p)  t == Kind(S.ob[p.s]) IN
                                c.frag = 0 /\ (RLen(Ahead(c.inq, t)) >= BLen(p.b) \/ (Term(c, t) = "cn" /\ c.tail = ""))
                             [] OTHER -> TRUE)
Late(S, p) == p.dl >= 0 /\ S.clk >= p.dl

\* sync: it must not fail for lack of time any more
Call(S, w, p) ==
  LET q == p @@ [im |-> Im(S, p), sent |-> 0]
      r == q @@ [sync |-> Now(S, q)] IN
  [S EXCEPT !.pd = Put(S.pd, w, r)]

\* Each possible result is [r, x, d, S]. h: the new object; inj: resources have
\* been refused meanwhile
Res(r, x, d, S) == [r |-> r, x |-> x, d |-> d, S |-> S]
Refused == {"ENOMEM", "EMFILE", "ENFILE", "ENOBUFS", "EFAULT"}
Ends(c) == IF c.tail = "" THEN {} ELSE IF c.tail = "EPIPE" THEN {"EPIPE", "ECONNRESET"} ELSE {c.tail}
\* how it may end for want of time
Wants(S, w, p) == (IF ~p.sync /\ Late(S, p) THEN {"ETIMEDOUT"} ELSE {}) \cup (IF ~p.sync /\ w \in S.cc THEN {"ECANCELED"} ELSE {})
\* after the peer's stream was tampered with
Ruined(c) == IF c.bad THEN {"EFAULT", "ECONNRESET", "EBUSY"} ELSE {}

Results(S, w, h, inj) ==
  LET p == S.pd[w]
      S0 == [S EXCEPT !.pd = Del(S.pd, w)]
      F(e) == Res(-1, e, <<>>, S0)
      refused == IF inj = 1 THEN Refused ELSE {} IN
  CASE p.o = "fromfd" ->
         {F(e) : e \in refused \cup (IF w \in S.cc THEN {"ECANCELED"} ELSE {})}
         \cup (IF h < 0 \/ h \in DOMAIN S.ob THEN {}
               ELSE {Res(0, "0", <<>>, [S0 EXCEPT !.ob = Put(S0.ob, h, NewOb("raw", p.k, -1))])})
    [] p.o = "twrong" -> {F(e) : e \in p.im \cup refused}
    [] p.o = "tattach" -> LET k == S.ob[p.s].k  c == S.cn[k] IN
         IF c.cl = 1
         THEN {Res(-1, e, <<>>, [S0 EXCEPT !.ob[p.s].st = "closed"]) :
                 e \in p.im \cup (IF "EINVAL" \in p.im THEN {} ELSE refused) \cup (IF p.im # {} THEN {} ELSE Wants(S, w, p) \cup Ruined(c) \cup Ends(c) \cup Tx(c))}
         ELSE IF p.im # {} \/ ~c.hs \/ h < 0 \/ h \in DOMAIN S.ob \/ (p.a[3] = 0 /\ \E i \in 1..Len(c.units) : c.units[i].t = "h") THEN {}
         ELSE {Res(0, "0", <<>>, [S0 EXCEPT !.ob = Put([S0.ob EXCEPT ![p.s].st = "under"], h, NewOb("tls", k, p.s))])}
    [] p.o = "bsend" -> LET c == Conn(S, p) IN
         {F(e) : e \in p.im}
         \cup (IF p.im # {} THEN {} ELSE
           {Res(-1, e, <<>>, [S0 EXCEPT !.ob[p.s].out = "ECONNRESET"]) : e \in Tx(c) \cup Wants(S, w, p) \cup Ruined(c)}
           \cup (IF p.sent = RLen(p.d) \/ c.bad THEN {Res(0, "0", <<>>, S0)} ELSE {}))
    [] p.o = "tdone" -> LET c == Conn(S, p) IN
         {F(e) : e \in p.im}
         \cup (IF p.im # {} THEN {} ELSE
           {Res(-1, e, <<>>, [S0 EXCEPT !.ob[p.s].out = "ECONNRESET"]) : e \in Tx(c) \cup Wants(S, w, p) \cup Ruined(c)}
           \cup (IF c.over \/ c.bad THEN {Res(0, "0", <<>>, [S0 EXCEPT !.ob[p.s].out = "EPIPE"])} ELSE {}))
    [] p.o = "brecv" -> LET c == Conn(S, p)  k == S.ob[p.s].k  t == Kind(S.ob[p.s])  f == Ahead(c.inq, t)  n == BLen(p.b)
                            Dead(e) == Res(-1, e, <<>>, [S0 EXCEPT !.ob[p.s].in = IF e = "EPIPE" THEN e ELSE "ECONNRESET"]) IN
         {F(e) : e \in p.im}
         \cup (IF p.im # {} THEN {}
           ELSE IF RLen(f) >= n THEN {Res(0, "0", Vis(f, p.b), [S0 EXCEPT !.cn[k].inq = Eat(@, n)])}
           ELSE {Dead(e) : e \in CASE Term(c, t) = "" -> {}
                                   [] Term(c, t) = "cn" -> {"EPIPE"}
                                   [] Term(c, t) = "x" -> {"EFAULT"}
                                   [] OTHER -> IF t = "r" THEN {c.tail} ELSE Ends(c)})
         \cup (IF p.im # {} THEN {} ELSE {Dead(e) : e \in Wants(S, w, p)})
         \* the end was seen already when there was TLS
         \cup (IF p.im = {} /\ t = "r" /\ n = 0 /\ f = <<>> /\ c.inq = <<>> /\ c.tail # "" THEN {Dead(c.tail)} ELSE {})
    [] p.o = "tdetach" -> LET k == S.ob[p.s].k  c == S.cn[k]  o == S.ob[p.s] IN
         IF c.cl = 1
         THEN {Res(-1, e, <<>>, [S0 EXCEPT !.ob[p.s].st = "closed", !.ob[o.u].st = "closed"]) :
                 e \in p.im \cup (IF p.im # {} THEN {} ELSE Wants(S, w, p) \cup Ruined(c)
                    \cup (IF c.over THEN {} ELSE Tx(c))
                    \cup (IF o.in = "EPIPE" THEN {} ELSE Ends(c))
                    \cup (IF Ahead(c.inq, "d") # <<>> THEN {"EFAULT"} ELSE {}))}
         ELSE IF p.im # {} \/ ~c.over \/ h # o.u \/ ~(o.in = "EPIPE" \/ Term(c, "d") = "cn") THEN {}
         ELSE {Res(0, "0", <<>>, [S0 EXCEPT !.ob[p.s].st = "closed", !.ob[h].st = "open",
                                            !.cn[k].inq = IF After(@, "d") = <<>> THEN <<>> ELSE Tail(After(@, "d"))])}
    [] p.o = "hclose" ->
         IF Conn(S, p).cl = 1
         THEN {Res(0, "0", <<>>, [S0 EXCEPT !.ob = TLCEval([x \in DOMAIN S0.ob |->
                 IF x = p.s \/ x = S0.ob[p.s].u THEN [S0.ob[x] EXCEPT !.st = "closed"] ELSE S0.ob[x]])])} ELSE {}
    [] OTHER -> {}

---------------------------------------------------------------------------
(* What the library does *)

On(S, k, w) == S.pd[w].s >= 0 /\ S.ob[S.pd[w].s].k = k
\* It puts something on the wire: only as part of a call.
Wire(S, k, win) ==
  IF S.cn[k].cl = 0 /\
     \E w \in DOMAIN S.pd : On(S, k, w) /\ S.pd[w].im = {}
       /\ S.pd[w].o \in {"tattach", "bsend", "tdone", "tdetach"} \cup (IF S.cn[k].bad THEN {"brecv"} ELSE {})
  THEN {[S EXCEPT !.cn[k].win = win]} ELSE {}
\* The peer has what it needs to finish the handshake.
Shaken(S, k) == IF \E w \in DOMAIN S.pd : On(S, k, w) /\ S.pd[w].o = "tattach" THEN {[S EXCEPT !.cn[k].hs = TRUE]} ELSE {}
\* The peer gets data: the next bytes of a send in progress.
Out(S, k, d, ty) ==
  {[S EXCEPT !.pd[w].sent = @ + RLen(d)] :
     w \in {v \in DOMAIN S.pd : LET p == S.pd[v] IN
        /\ p.o = "bsend" /\ p.im = {} /\ On(S, k, v) /\ S.ob[p.s].ty = ty
        /\ S.cn[k].over = (ty = "raw")
        /\ RAt(p.d, p.sent, d)}}
\* The peer is told of the end of data.
Over(S, k) ==
  IF ~S.cn[k].over /\ \E w \in DOMAIN S.pd : On(S, k, w) /\ S.pd[w].o \in {"tdone", "tdetach"} /\ S.pd[w].im = {}
  THEN {[S EXCEPT !.cn[k].over = TRUE]} ELSE {}
\* The peer cannot make sense of it.
Broken(S, k) == IF S.cn[k].bad THEN {S} ELSE {}
Closed(S, k) ==
  IF S.cn[k].cl = 0 /\
     \E w \in DOMAIN S.pd : \/ (On(S, k, w) /\ S.pd[w].o \in {"hclose", "tattach", "tdetach"})
                                           \/ (S.pd[w].o = "fromfd" /\ S.pd[w].k = k)
  THEN {[S EXCEPT !.cn[k].cl = 1]} ELSE {}
\* The library goes to sleep for `to` ms (-1: until something happens).
MaySleep(S, to) ==
  \A w \in DOMAIN S.pd : LET p == S.pd[w] IN
    /\ ~Ready(S, p) /\ w \notin S.cc
    /\ p.dl >= 0 => to >= 0 /\ S.clk + to <= Hi(p.dl, S.clk) + 1 /\ S.clk < p.dl
Polled(S) == [S EXCEPT !.pd = TLCEval([w \in DOMAIN S.pd |-> LET p == S.pd[w] IN
     IF ~p.sync /\ p.o = "brecv" /\ ~Late(S, p) /\ w \notin S.cc /\ Now(S, p)
     THEN [p EXCEPT !.sync = TRUE] ELSE p])]

\* The environment
Say(S, k, t, n, d) == [S EXCEPT !.cn[k].units = Append(@, [t |-> t, n |-> n, d |-> d]), !.cn[k].bad = @ \/ t = "x"]
Arrive(S, k, n) == [S EXCEPT !.cn[k] = Deliver(@, n)]
EndIn(S, k, x) == [S EXCEPT !.cn[k].tail = x, !.cn[k].units = <<>>, !.cn[k].got = 0]
TxErr(S, k, x) == [S EXCEPT !.cn[k].tx = x]
Window(S, k, n) == [S EXCEPT !.cn[k].win = n]
====
