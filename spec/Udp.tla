---- MODULE Udp ----
(* libdill's UDP sockets. Addresses are sequences of bytes: 4 or 16 of the host,
   two of the port; <<>> is none. *)
EXTENDS Rope, FiniteSets

Hi(a, b) == IF a > b THEN a ELSE b
Lo(a, b) == IF a < b THEN a ELSE b
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Del(f, k) == TLCEval([x \in DOMAIN f \ {k} |-> f[x]])

Init0(clk) == [clk |-> clk, sk |-> <<>>, ob |-> <<>>, pd |-> <<>>, cc |-> {}]

(* A socket as the system sees it. in: datagrams that have arrived, <<from,
   bytes>>; err: an error the next receive is told of once there is no datagram;
   tx: error of sends ("" none); win: 0 if the system has no room for sends *)
NewSock(fam, addr) == [fam |-> fam, addr |-> addr, in |-> <<>>, err |-> "", tx |-> "", win |-> -1, cl |-> 0]
MaxDgram == 65507

BLen(b) == FoldLeft(LAMBDA a, x : a + x[1], 0, b)
RECURSIVE Vis(_, _)
Vis(r, b) == IF b = <<>> \/ r = <<>> THEN <<>>
             ELSE LET n == Lo(b[1][1], RLen(r)) IN
                  IF b[1][2] = 1 THEN RCat(RTake(r, n), Vis(RDrop(r, n), Tail(b)))
                  ELSE Vis(RDrop(r, n), Tail(b))
\* kinds of lists: 0 proper, 2 none at all, others malformed
BadList(p) == p.bk \notin {0, 2}
Fits(p, n) == p.bk = 2 \/ n <= BLen(p.b)

---------------------------------------------------------------------------
(* Calls, p: [o, s, t, bk, b, d, a, dl]
   uopen: a = <<no memory given, family of the local address (0 none), of the
          remote one, the local address is taken>>, d = local, remote
   usend: d = the content, a = the destination or <<>>
   urecv: a = <<is the sender's address wanted?>>
   uwrong: a call for other kinds of sockets, or of a handle that is none;
          t = what is wrong
   closex: a close function of other protocols;  hclose *)

ALen(f) == CASE f = 4 -> 6 [] f = 6 -> 18 [] OTHER -> 0
Local(p) == RBytes(p.d, 0, ALen(p.a[2]))
Remote(p) == RBytes(p.d, ALen(p.a[2]), ALen(p.a[3]))
Port(a) == IF a = <<>> THEN 0 ELSE a[Len(a) - 1] * 256 + a[Len(a)]
Host(a) == SubSeq(a, 1, Len(a) - 2)
Dest(S, p) == IF p.a # <<>> THEN p.a ELSE S.ob[p.s].rem

\* the first datagram that the receiver may see, 0 if there is none
Mine(S, s) ==
  LET o == S.ob[s]  q == S.sk[o.k].in
      I == {i \in 1..Len(q) : o.rem = <<>> \/ q[i][1] = o.rem} IN
  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

\* errors that are there at once
Im(S, p) ==
  CASE p.o = "uopen" -> IF p.a[1] = 1 \/ (p.a[2] # 0 /\ p.a[3] # 0 /\ p.a[2] # p.a[3]) THEN {"EINVAL"}
                        ELSE IF p.a[4] = 1 THEN {"EADDRINUSE"} ELSE {}
    [] p.o = "usend" -> IF p.bk # 0 \/ Dest(S, p) = <<>> THEN {"EINVAL"} ELSE {}
    [] p.o = "urecv" -> (IF BadList(p) THEN {"EINVAL"} ELSE {})
         \cup (IF \E w \in DOMAIN S.pd : S.pd[w].o = "urecv" /\ S.pd[w].s = p.s /\ S.pd[w].im = {} THEN {"EBUSY"} ELSE {})
    [] p.o = "uwrong" -> {p.t}
    [] p.o = "closex" -> {"ENOTSUP"}
    [] OTHER -> {}

\* Does the call have all it needs?
Ready(S, p) == p.im # {} \/ p.o # "urecv" \/ Mine(S, p.s) # 0 \/ S.sk[S.ob[p.s].k].err # ""
Late(S, p) == p.dl >= 0 /\ S.clk >= p.dl

\* sync: it must not fail for lack of time any more
Call(S, w, p) ==
  LET q == p @@ [im |-> Im(S, p), k |-> -1, sent |-> 0]
      r == q @@ [sync |-> Ready(S, q)] IN
  [S EXCEPT !.pd = Put(S.pd, w, r)]

\* Each possible result is [r, x, d, S]. h: the new object; inj: resources have
\* been refused meanwhile
Res(r, x, d, S) == [r |-> r, x |-> x, d |-> d, S |-> S]
Refused == {"ENOMEM", "EMFILE", "ENFILE", "ENOBUFS"}
Results(S, w, h, inj) ==
  LET p == S.pd[w]
      S0 == [S EXCEPT !.pd = Del(S.pd, w)]
      F(e) == Res(-1, e, <<>>, S0) IN
  {F(e) : e \in p.im}
  \cup (IF p.o = "uopen" /\ inj = 1 THEN {F(e) : e \in Refused} ELSE {})
  \cup (IF p.o = "uopen" /\ w \in S.cc THEN {F("ECANCELED")} ELSE {})
  \cup (IF p.im # {} THEN {} ELSE
    CASE p.o = "uopen" ->
         IF p.k < 0 \/ h \in DOMAIN S.ob THEN {}
         ELSE LET a == S.sk[p.k].addr IN
              {Res(Port(a), "0", <<>>, [S0 EXCEPT !.ob = Put(S0.ob, h, [st |-> "open", k |-> p.k, rem |-> Remote(p)])])}
      [] p.o = "usend" -> LET k == S.sk[S.ob[p.s].k] IN
         IF p.sent = 1 THEN {Res(0, "0", <<>>, S0)}
         ELSE (IF k.tx # "" THEN {F(k.tx)} ELSE {})
              \cup (IF k.win = 0 /\ k.tx = "" THEN {Res(0, "0", <<>>, S0)} ELSE {})
              \cup (IF RLen(p.d) > MaxDgram THEN {F("EMSGSIZE")} ELSE {})
      [] p.o = "urecv" -> LET s == S.ob[p.s].k  k == S.sk[s]  i == Mine(S, p.s) IN
         (IF i = 0 THEN IF k.err = "" THEN {} ELSE {Res(-1, k.err, <<>>, [S0 EXCEPT !.sk[s].in = <<>>, !.sk[s].err = ""])}
          ELSE LET g == k.in[i]  n == RLen(g[2])
                   S1 == [S0 EXCEPT !.sk[s].in = SubSeq(@, i + 1, Len(@))] IN
               IF ~Fits(p, n) THEN {Res(-1, "EMSGSIZE", <<>>, S1)}
               ELSE {Res(n, "0", RCat(IF p.a[1] = 1 THEN Lit(g[1]) ELSE <<>>, Vis(g[2], p.b)), S1)})
         \cup (IF ~p.sync /\ Late(S, p) THEN {F("ETIMEDOUT")} ELSE {})
         \cup (IF ~p.sync /\ w \in S.cc THEN {F("ECANCELED")} ELSE {})
      [] p.o = "hclose" -> IF S.sk[S.ob[p.s].k].cl = 1 THEN {Res(0, "0", <<>>, [S0 EXCEPT !.ob[p.s].st = "closed"])} ELSE {}
      [] OTHER -> {})

---------------------------------------------------------------------------
(* What the library does to the system's sockets *)

\* A socket made by the call in progress of worker w.
Made(S, w, k, fam, addr) ==
  LET p == S.pd[w]  l == Local(p) IN
  IF /\ p.o = "uopen" /\ p.im = {} /\ p.k < 0 /\ k \notin DOMAIN S.sk
     /\ fam = (IF p.a[2] # 0 THEN p.a[2] ELSE IF p.a[3] # 0 THEN p.a[3] ELSE 4)
     /\ IF l = <<>> THEN addr = <<>>
        ELSE /\ Len(addr) = Len(l) /\ Host(addr) = Host(l)
             /\ IF Port(l) = 0 THEN Port(addr) # 0 ELSE Port(addr) = Port(l)
  THEN {[S EXCEPT !.sk = Put(S.sk, k, NewSock(fam, addr)), !.pd[w].k = k]} ELSE {}
\* A datagram goes out: exactly the one of a call in progress.
Out(S, k, a, d) ==
  {[S EXCEPT !.pd[w].sent = 1] :
     w \in {v \in DOMAIN S.pd : LET p == S.pd[v] IN
        /\ p.o = "usend" /\ p.im = {} /\ p.sent = 0 /\ S.ob[p.s].k = k
        /\ S.sk[k].tx = "" /\ S.sk[k].win # 0 /\ RLen(p.d) <= MaxDgram
        /\ Dest(S, p) = a /\ REq(p.d, d)}}
Closed(S, k) == IF \E w \in DOMAIN S.pd : S.pd[w].o = "hclose" /\ S.ob[S.pd[w].s].k = k /\ S.sk[k].cl = 0
                THEN {[S EXCEPT !.sk[k].cl = 1]} ELSE {}
\* The library goes to sleep for `to` ms (-1: until something happens).
MaySleep(S, to) ==
  \A w \in DOMAIN S.pd : LET p == S.pd[w] IN
    /\ ~Ready(S, p) /\ w \notin S.cc
    /\ p.dl >= 0 => to >= 0 /\ S.clk + to <= Hi(p.dl, S.clk) + 1 /\ S.clk < p.dl
Polled(S) == [S EXCEPT !.pd = TLCEval([w \in DOMAIN S.pd |->
     IF ~S.pd[w].sync /\ ~Late(S, S.pd[w]) /\ w \notin S.cc /\ Ready(S, S.pd[w])
     THEN [S.pd[w] EXCEPT !.sync = TRUE] ELSE S.pd[w]])]

\* The environment
Arrive(S, k, a, d) == [S EXCEPT !.sk[k].in = Append(@, <<a, d>>)]
RxErr(S, k, x) == [S EXCEPT !.sk[k].err = x]
TxErr(S, k, x) == [S EXCEPT !.sk[k].tx = x]
Window(S, k, n) == [S EXCEPT !.sk[k].win = n]
====
