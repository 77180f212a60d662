---- MODULE NetMC ----
(* Every program of at most K calls and environment steps over a chosen
   alphabet: model checking of Net, and the source of the scripts that are
   replayed in the real library (one per transition).
   g holds what is known from outside: what arrived (dlv) and what was received
   (got) on each connection, what was put on the wire (wire), the messages the
   peer framed (sentm, in the order of completion) and those received. *)
EXTENDS Net, IOUtils

CONSTANTS K,       \* steps of a program
          OPS,     \* calls and events
          CASE_,   \* the rest, below
          DLS,     \* deadlines, relative; 999: none
          CUTS,    \* how many bytes arrive at a time
          WKS,     \* coroutines
          FRAG,    \* may the system deal out its bytes in parts?
          EMIT

(* sz: sizes of what is sent; ls: lists to receive into (<<>>: none at all);
   plan: the peer's bytes; win: what the system accepts, per connection *)
Cs(base, layers, sz, ls, plan, win) ==
  [base |-> base, layers |-> layers, sz |-> sz, ls |-> ls, plan |-> plan, win |-> win]
B1(n) == <<<<n, 1>>>>
Case == CASE CASE_ = "stream" -> Cs("tcp", <<>>, {0, 1, 3}, {B1(1), B1(2), <<<<1, 1>>, <<2, 1>>>>}, <<97, 98, 99, 100>>, <<1>>)
          [] CASE_ = "stream2" -> Cs("ipc", <<>>, {2}, {B1(0), B1(3), <<<<1, 1>>, <<1, 0>>>>}, <<97, 98, 99, 100>>, <<-1, 0>>)
          [] CASE_ = "close" -> Cs("ipc", <<>>, {2}, {B1(2)}, <<97, 98, 99>>, <<1>>)
          [] CASE_ = "prefix" -> Cs("tcp", <<<<"prefix", 1, 1>>>>, {0, 2}, {<<>>, B1(1), B1(2), <<<<1, 1>>, <<1, 0>>>>},
                                    <<1, 65, 0, 2, 66, 67>>, <<2>>)
          [] CASE_ = "prefix2" -> Cs("ipc", <<<<"prefix", 2, 0>>>>, {1}, {<<>>, B1(1), B1(2)},
                                    <<1, 0, 65, 2, 0, 66, 67>>, <<-1>>)
          [] CASE_ = "suffix" -> Cs("tcp", <<<<"suffix", <<10>>>>>>, {0, 2}, {<<>>, B1(1), B1(2), <<<<1, 1>>, <<1, 0>>>>},
                                    <<65, 10, 10, 66, 67, 10>>, <<2>>)
          [] CASE_ = "suffix2" -> Cs("tcp", <<<<"suffix", <<35, 35, 36>>>>>>, {1}, {B1(1), B1(3)},
                                    <<35, 35, 35, 36, 65, 35, 35, 36>>, <<-1>>)
          [] CASE_ = "term" -> Cs("tcp", <<<<"prefix", 1, 1>>, <<"term", <<46>>>>>>, {1}, {B1(1), B1(2)},
                                    <<1, 65, 1, 46, 1, 66>>, <<2>>)
          [] CASE_ = "term0" -> Cs("ipc", <<<<"suffix", <<10>>>>, <<"term", <<>>>>>>, {1}, {B1(1), B1(2)},
                                    <<65, 10, 10, 66, 10>>, <<-1>>)
          [] CASE_ = "http" -> Cs("tcp", <<<<"http", <<>>>>>>, {}, {}, <<71, 32, 47, 32>> \o Http11 \o <<13, 10, 65, 58, 32, 98, 13, 10, 13, 10>>, <<9>>)
          [] CASE_ = "http2" -> Cs("ipc", <<<<"http", <<>>>>>>, {}, {}, Http11 \o <<32, 50, 48, 49, 32, 79, 13, 10, 65, 58, 13, 10, 58, 58, 13, 10>>, <<-1>>)
          [] CASE_ = "wsc" -> Cs("tcp", <<<<"ws", 0>>>>, {0, 2}, {<<>>, B1(1), B1(3), <<<<1, 1>>, <<1, 0>>>>},
                                 <<1, 1, 65, 128, 1, 66, 129, 0, 136, 3, 3, 232, 88>>, <<3>>)
          [] CASE_ = "wss" -> Cs("ipc", <<<<"ws", 1>>>>, {1}, {B1(1), B1(2)},
                                 <<129, 129, 0, 0, 0, 0, 65, 130, 130, 0, 0, 0, 0, 66, 67, 136, 128, 0, 0, 0, 0>>, <<-1>>)
          [] CASE_ \in {"hands", "handc", "s5c", "s5p"} -> Cs("tcp", <<>>, {}, {}, <<>>, <<-1>>)
          [] CASE_ = "layers" -> Cs("tcp", <<>>, {1}, {B1(1)}, <<1, 65, 1, 46, 66>>, <<-1>>)
\* a handshake's lines, that may come in any order
KEY == <<100, 71, 104, 108, 73, 72, 78, 104, 98, 88, 66, 115, 90, 83, 66, 117, 98, 50, 53, 106, 90, 81, 61, 61>>
ACC == <<115, 51, 112, 80, 76, 77, 66, 105, 84, 120, 97, 81, 57, 107, 89, 71, 122, 122, 104, 90, 82, 98, 75, 43, 120, 79, 111, 61>>
Lf0(n, v) == n \o <<58, 32>> \o v \o CRLF
S5V6 == <<0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 0, 0, 3, 1, 2>>
S5OKm == <<5, 0, 0, 1, 10, 0, 0, 1, 0, 80>>
LINES == CASE CASE_ = "hands" ->
                {<<71, 69, 84, 32, 47, 32>> \o Http11 \o CRLF, <<80, 32, 47, 32>> \o Http11 \o CRLF, Lf0(nHost, <<104>>),
                 Lf0(nUpgrade, vWebsocket), Lf0(nConnection, vUpgrade), Lf0(nVersion, v13), Lf0(nVersion, <<49, 51, 51>>),
                 Lf0(nKey, KEY), CRLF} \cup (IF "other" \in OPS THEN {Lf0(<<88>>, <<89>>)} ELSE {})
           [] CASE_ = "handc" ->
                {Http11 \o <<32, 49, 48, 49, 32, 83>> \o CRLF, Http11 \o <<32, 50, 48, 48, 32, 83>> \o CRLF, Lf0(nUpgrade, vWebsocket),
                 Lf0(nConnection, vUpgrade), Lf0(nUpgrade, vUpgrade), Lf0(nAccept, AccTok), Lf0(nAccept, Tail(AccTok)), CRLF}
                \cup (IF "other" \in OPS THEN {Lf0(<<88>>, <<89>>)} ELSE {})
           [] CASE_ = "s5c" ->
                {<<5>>, <<0>>, <<5, 0>>, <<5, 2>>, <<5, 255>>, <<5, 1>>, <<1, 0>>, <<1, 1>>, <<2, 0>>, S5OKm, <<5, 0, 0, 4>> \o S5V6, <<5, 5, 0, 1, 10, 0, 0, 1, 0, 80>>,
                 <<5, 0, 0, 3, 2, 97, 98, 0, 80>>, <<5, 0, 1, 1, 10, 0, 0, 1, 0, 80>>, <<5, 9, 0, 1, 10, 0, 0, 1, 0, 80>>}
           [] CASE_ = "s5p" ->
                {<<5>>, <<5, 1, 0>>, <<5, 1, 2>>, <<5, 2, 0, 2>>, <<5, 0>>, <<4, 0>>, <<1, 1, 117, 1, 112>>, <<1, 1, 117>>, <<1, 0, 0>>, <<2, 1, 117, 1, 112>>, <<1, 1, 117, 2, 112, 112>>,
                 <<5, 1, 0, 1, 127, 0, 0, 1, 0, 80>>, <<5, 9, 0, 1, 127, 0, 0, 1, 0, 80>>, <<5, 2, 0, 3, 1, 104, 0, 80>>, <<5, 2, 0, 3, 1, 120, 0, 80>>, <<5, 3, 0, 4>> \o S5V6}
           [] OTHER -> {}
HANDS == LINES # {}
BASE == Case.base
LAYERS == Case.layers
SIZES == Case.sz
LISTS == Case.ls
PLAN == Case.plan
WINS == Case.win

VARIABLES s, h, g
vars == <<s, h, g>>

NoA == <<>>
TS(x) == ToString(x)
RECURSIVE Commas(_)
Commas(q) == IF q = <<>> THEN "-" ELSE IF Len(q) = 1 THEN TS(q[1]) ELSE TS(q[1]) \o "," \o Commas(Tail(q))
\* calls of HTTP: kind, and two texts (or status and text, or sizes of buffers)
HSends == {<<"req", <<71>>, 0, <<47>>>>, <<"field", <<65>>, 0, <<98>>>>, <<"stat", <<>>, 200, <<75>>>>,
           <<"field", <<65, 58>>, 0, <<98>>>>, <<"req", <<71, 32>>, 0, <<47>>>>, <<"stat", <<>>, 99, <<75>>>>}
HRecvs == {<<"req", 9, 9>>, <<"req", 1, 9>>, <<"stat", 2, 0>>, <<"field", 9, 9>>, <<"field", 9, 1>>}
HSendA(x) == IF x[1] = "stat" THEN <<x[3]>> ELSE <<Len(x[2])>>
HSendD(x) == Lit(x[2] \o x[4])
Closes == {<<0, 0>>, <<1000, 2>>, <<999, 0>>}
LTxt(b) == IF b = <<>> THEN "-"
           ELSE FoldLeft(LAMBDA a, x : (IF a = "" THEN "" ELSE a \o ",") \o TS(x[1]) \o (IF x[2] = 1 THEN "" ELSE "n"), "", b)

Rec(o, ob, t, bk, b, d, a, dl) == [o |-> o, s |-> ob, t |-> t, bk |-> bk, b |-> b, d |-> d, a |-> a,
   dl |-> IF dl >= 999 THEN -1 ELSE s.clk + dl, k |-> -1, k2 |-> -1]
Line(w, o, ob, dl, x) == "C " \o TS(w) \o " " \o o \o " " \o TS(ob) \o " " \o TS(IF dl >= 999 THEN -1 ELSE dl) \o (IF x = "" THEN "" ELSE " " \o x)

---------------------------------------------------------------------------
(* The beginning: one connection per window in WINS, the first with layers *)
LayA(l) == CASE l[1] = "prefix" -> <<l[2], l[3], 0>> [] l[1] = "ws" -> <<l[2], 1, 0>> [] OTHER -> <<0>>
LayD(l) == IF l[1] \in {"suffix", "term"} THEN l[2] ELSE <<>>
LayTxt(l) == "A " \o l[1] \o " " \o (CASE l[1] = "prefix" -> TS(l[2]) \o " " \o TS(l[3])
                                        [] l[1] = "ws" -> (IF l[2] = 1 THEN "s" ELSE "c") [] OTHER -> Commas(l[2]))
RECURSIVE Layered(_, _, _)
Layered(S, ls, n) ==
  IF ls = <<>> THEN S
  ELSE LET l == ls[1]  u == n - 1 IN
       Layered([S EXCEPT !.ob = Put([S.ob EXCEPT ![u].st = "under"], n, NewOb(l[1], u, S.ob[u].k, LayA(l), LayD(l)))],
               Tail(ls), n + 1)
NC == Len(WINS)
Setup == (IF CASE_ = "hands" THEN <<"K">> ELSE <<>>) \o [k \in 1..NC |-> "S " \o BASE \o " " \o TS(WINS[NC + 1 - k]) \o " " \o TS(FRAG)]
         \o [i \in 1..Len(LAYERS) |-> LayTxt(LAYERS[i])]
\* (objects are numbered in the order of creation, layers go on the last one)
Init0R == Layered([Init0(1000) EXCEPT !.acc = IF CASE_ = "hands" THEN Put(<<>>, KEY, ACC) ELSE <<>>,
                                   !.cn = TLCEval([k \in 0..(NC-1) |-> NewConn(WINS[NC - k], FRAG, "ok")]),
                                   !.ob = TLCEval([k \in 0..(NC-1) |-> NewOb(BASE, -1, k, <<>>, <<>>)])], LAYERS, NC)

Init == /\ s = Init0R /\ h = Setup
        /\ g = [dlv |-> [k \in 0..(NC-1) |-> <<>>], got |-> [k \in 0..(NC-1) |-> <<>>],
                wire |-> [k \in 0..(NC-1) |-> <<>>], want |-> [k \in 0..(NC-1) |-> <<>>],
                msgs |-> <<>>, oks |-> <<>>, pos |-> 0, n |-> 0]

---------------------------------------------------------------------------
(* Calls *)
Idle(w) == w \notin DOMAIN s.pd /\ w \notin s.cc
Open == {o \in DOMAIN s.ob : s.ob[o].st = "open" /\ \A w \in DOMAIN s.pd : s.pd[w].s = o => ~Fatal(s.pd[w])}
Quiet(o) == \A w \in DOMAIN s.pd : s.pd[w].s # o
NoOne(o, dir) == \A w \in DOMAIN s.pd : s.pd[w].s = o => s.pd[w].o \notin dir

\* the data of a call: bytes that tell the calls apart
Data(n) == Lit(TLCEval([i \in 1..n |-> 33 + ((g.n * 5 + i) % 60)]))

Fresh(o) == s.ob[o].ty \in BSock /\ s.ob[o].ine = 0 /\ s.ob[o].one = 0 /\ s.ob[o].ind = 0 /\ s.ob[o].ond = 0
Calls(w) ==
  UNION {
  (IF "bsend" \in OPS /\ s.ob[o].ty \in BSock /\ NoOne(o, Dones) THEN {<<Rec("bsend", o, "", 0, <<<<n, 1>>>>, Data(n), NoA, dl),
      Line(w, "bsend", o, dl, TS(n))>> : n \in SIZES, dl \in DLS} ELSE {})
  \cup (IF "brecv" \in OPS /\ s.ob[o].ty \in BSock THEN {<<Rec("brecv", o, "", IF b = <<>> THEN 2 ELSE 0, b, <<>>, NoA, dl),
      Line(w, "brecv", o, dl, LTxt(b))>> : b \in LISTS, dl \in DLS} ELSE {})
  \cup (IF "msend" \in OPS /\ s.ob[o].ty \in MSock /\ NoOne(o, Sends \cup Dones) THEN {<<Rec("msend", o, "", 0, <<<<n, 1>>>>, Data(n), NoA, dl),
      Line(w, "msend", o, dl, TS(n))>> : n \in (IF s.ob[o].ty = "term" THEN SIZES \ {0} ELSE SIZES), dl \in DLS} ELSE {})
  \cup (IF "mrecv" \in OPS /\ s.ob[o].ty \in MSock /\ NoOne(o, Recvs) THEN {<<Rec("mrecv", o, "", IF b = <<>> THEN 2 ELSE 0, b, <<>>, NoA, dl),
      Line(w, "mrecv", o, dl, LTxt(b))>> : b \in LISTS, dl \in DLS} ELSE {})
  \cup (IF "wrong" \in OPS THEN {<<Rec(IF s.ob[o].ty \in BSock THEN "mrecv" ELSE "brecv", o, "", 0, <<<<1, 1>>>>, <<>>, NoA, 999),
      Line(w, IF s.ob[o].ty \in BSock THEN "mrecv" ELSE "brecv", o, 999, "1")>>} ELSE {})
  \cup (IF "done" \in OPS /\ s.ob[o].ty \in BSock /\ NoOne(o, Sends \cup Dones) THEN
      {<<Rec("done", o, "", 0, <<>>, <<>>, NoA, dl), Line(w, "done", o, dl, "")>> : dl \in DLS} ELSE {})
  \cup (IF "mdone" \in OPS /\ s.ob[o].ty \in Terms /\ NoOne(o, Sends \cup Dones) THEN
      {<<Rec("mdone", o, "", 0, <<>>, <<>>, NoA, dl), Line(w, "mdone", o, dl, "")>> : dl \in DLS} ELSE {})
  \cup (IF "hsend" \in OPS /\ s.ob[o].ty = "http" /\ NoOne(o, Sends \cup Dones) THEN
      {<<Rec("hsend", o, x[1], 0, <<>>, HSendD(x), HSendA(x), dl),
         Line(w, "hsend", o, dl, x[1] \o " " \o (IF x[1] = "stat" THEN TS(x[3]) ELSE Commas(x[2])) \o " " \o Commas(x[4]))>> :
         x \in HSends, dl \in DLS} ELSE {})
  \cup (IF "hrecv" \in OPS /\ s.ob[o].ty = "http" /\ NoOne(o, Recvs) THEN
      {<<Rec("hrecv", o, x[1], 0, <<>>, <<>>, <<x[2], x[3]>>, dl), Line(w, "hrecv", o, dl, x[1] \o " " \o TS(x[2]) \o " " \o TS(x[3]))>> :
         x \in HRecvs, dl \in DLS} ELSE {})
  \cup (IF "wsend" \in OPS /\ s.ob[o].ty = "ws" /\ NoOne(o, Sends \cup Dones) THEN
      {<<Rec("wsend", o, "", 0, <<<<n, 1>>>>, Data(n), <<0>>, dl), Line(w, "wsend", o, dl, "b " \o TS(n))>> : n \in SIZES, dl \in DLS} ELSE {})
  \cup (IF "wrecv" \in OPS /\ s.ob[o].ty = "ws" /\ NoOne(o, Recvs) THEN
      {<<Rec("wrecv", o, "", IF b = <<>> THEN 2 ELSE 0, b, <<>>, NoA, dl), Line(w, "wrecv", o, dl, LTxt(b))>> : b \in LISTS, dl \in DLS} ELSE {})
  \cup (IF "wdone" \in OPS /\ s.ob[o].ty = "ws" /\ NoOne(o, Sends \cup Dones) THEN
      {<<Rec("wdone", o, "", 0, <<>>, Data(x[2]), <<x[1], 0>>, dl), Line(w, "wdone", o, dl, TS(x[1]) \o " " \o TS(x[2]))>> :
         x \in Closes, dl \in DLS} ELSE {})
  \cup (IF "wstatus" \in OPS /\ s.ob[o].ty = "ws" THEN
      {<<Rec("wstatus", o, "", 0, <<>>, <<>>, <<n, 0>>, 999), Line(w, "wstatus", o, 999, TS(n))>> : n \in {0, 9}} ELSE {})
  \cup (IF ~Quiet(o) THEN {} ELSE
     (IF "s5" \in OPS /\ CASE_ = "s5c" /\ Fresh(o) /\ g.n = 0 THEN
        {<<Rec(t, o, "", 0, <<>>, RCats(<<IF u = 0 THEN <<>> ELSE Lit(<<117, 112>>), IF t = "s5addr" THEN Lit(<<10, 0, 0, 1>>) ELSE Lit(<<104>>)>>),
               IF u = 0 THEN <<-1, -1, 80, 0>> ELSE <<1, 1, 80, 0>>, dl),
           Line(w, t, o, dl, TS(u))>> : t \in {"s5addr", "s5name"}, u \in {0, 1}, dl \in DLS} ELSE {})
     \cup (IF "s5" \in OPS /\ CASE_ = "s5p" /\ Fresh(o) THEN
        {<<Rec("s5auth", o, "", 0, <<>>, IF u = 0 THEN <<>> ELSE Lit(<<117, 0, 112>>), <<u>>, dl), Line(w, "s5auth", o, dl, TS(u))>> : u \in IF g.n = 0 THEN {0, 1} ELSE {}, dl \in DLS}
        \cup {<<Rec("s5cmd", o, t, 0, <<>>, <<>>, <<>>, dl), Line(w, "s5cmd", o, dl, t)>> : t \in {"addr", "name"}, dl \in DLS}
        \cup {<<Rec("s5reply", o, "", 0, <<>>, Lit(<<10, 0, 0, 1>>), <<n, 80>>, dl), Line(w, "s5reply", o, dl, TS(n))>> : n \in {0, 9}, dl \in DLS} ELSE {})
     \cup (IF "wsattach" \in OPS /\ s.ob[o].ty \in BSock THEN
        {<<IF CASE_ = "hands" THEN Rec("wsattach", o, "server", 0, <<>>, <<>>, <<40, 0, 1, 40, 0>>, dl)
           ELSE Rec("wsattach", o, "client", 0, <<>>, Lit(<<47, 104>>), <<1, 0, 1, 0>>, dl),
           Line(w, "wsattach", o, dl, IF CASE_ = "hands" THEN "s" ELSE "c")>> : dl \in DLS} ELSE {})
     \cup (IF "close" \in OPS /\ s.ob[o].ty \in BSock THEN
        {<<Rec("close", o, "", 0, <<>>, <<>>, NoA, dl), Line(w, "close", o, dl, "")>> : dl \in DLS} ELSE {})
     \cup (IF "hclose" \in OPS THEN
        {<<Rec("hclose", o, "", 0, <<>>, <<>>, NoA, 999), Line(w, "hclose", o, 999, "")>>} ELSE {})
     \cup (IF "detach" \in OPS /\ s.ob[o].ty \in (MSock \cup {"http"}) \ {"ws"} THEN
        {<<Rec("detach", o, "", 0, <<>>, <<>>, NoA, dl), Line(w, "detach", o, dl, "")>> : dl \in DLS} ELSE {})
     \cup (IF "detach" \in OPS /\ s.ob[o].ty = "ws" THEN
        {<<Rec("detach", o, "", 0, <<>>, Data(x[2]), <<x[1], 0>>, dl), Line(w, "detach", o, dl, TS(x[1]) \o " " \o TS(x[2]))>> :
           x \in Closes, dl \in DLS} ELSE {})
     \cup (IF "attach" \in OPS /\ Cardinality(DOMAIN s.ob) < 5 THEN
        {<<Rec("attach", o, "prefix", 0, <<>>, <<>>, <<1, 1, 0>>, 999), Line(w, "attach", o, 999, "prefix 1 1")>>,
         <<Rec("attach", o, "suffix", 0, <<>>, Lit(<<13, 10>>), <<0>>, 999), Line(w, "attach", o, 999, "suffix 13,10")>>,
         <<Rec("attach", o, "term", 0, <<>>, Lit(<<46>>), <<0>>, 999), Line(w, "attach", o, 999, "term 46")>>} ELSE {}))
  : o \in Open }

Emit(x) == IF EMIT THEN PrintT(<<"SCRIPT", x>>) ELSE TRUE
Room == Len(h) < K + Len(Setup)

\* The library rests: nobody can go on.
Rest == \A w \in DOMAIN s.pd : ~CanGoOn(s, s.pd[w]) /\ ~Late(s, s.pd[w]) /\ w \notin s.cc

DoCall ==
  /\ Room /\ Rest
  /\ \E w \in {v \in 1..WKS : Idle(v) /\ \A u \in 1..(v-1) : ~Idle(u)} : \E c \in Calls(w) :
       /\ s' = Call(s, w, c[1])
       /\ h' = Append(h, c[2])
       /\ g' = [g EXCEPT !.n = @ + 1]
  /\ Emit(h')

---------------------------------------------------------------------------
(* The library: it writes what it can, then the call returns. *)
WriteSt ==
  /\ \E w \in DOMAIN s.pd : LET p == s.pd[w]  k == KOf(s, p) IN
     /\ p.im = {} /\ k >= 0 /\ p.o \notin Recvs
     /\ LET R == Run(s, p)  c == s.cn[k]
            n == IF c.win < 0 THEN RLen(R.out) - c.sent ELSE Lo(c.win, RLen(R.out) - c.sent) IN
        /\ ~Sent(s, p, R) /\ c.tx = "" /\ n > 0
        /\ LET d == RTake(RDrop(R.out, c.sent), n) IN
           /\ s' \in Wrote(s, k, d, IF p.o = "sendfd" THEN <<p.a[1]>> ELSE <<>>)
           /\ g' = [g EXCEPT !.wire[k] = RCat(@, d)]
  /\ h' = h
EndSt ==
  /\ \E w \in DOMAIN s.pd : LET p == s.pd[w]  k == KOf(s, p) IN
     /\ p.im = {} /\ k >= 0 /\ p.o \in {"done", "close"} /\ s.cn[k].sh = 0
     /\ (p.o = "done" \/ s.ob[p.s].ond = 0) /\ s.ob[p.s].one = 0 /\ s.ob[p.s].ine = 0
     /\ s.cn[k].tx = ""
     /\ s' \in Shut(s, k)
  /\ UNCHANGED <<h, g>>
NewId == IF DOMAIN s.ob = {} THEN 0 ELSE 1 + CHOOSE i \in DOMAIN s.ob : \A j \in DOMAIN s.ob : j <= i
HFor(p) == IF p.o = "detach" THEN s.ob[p.s].u ELSE NewId
\* the close before a return that needs it
Ret ==
  /\ \E w \in DOMAIN s.pd : LET p == s.pd[w]  k == KOf(s, p)
                                R0s == Results(s, w, HFor(p), -1, 0)
                                cl == IF Fatal(p) /\ k >= 0 /\ s.cn[k].cl = 0
                                      THEN UNION {Results(x, w, HFor(p), -1, 0) : x \in Closed(s, k, 1 - s.cn[k].sh)} ELSE {} IN
     /\ \E y \in R0s \cup cl :
          /\ s' = y.S
          /\ g' = IF p.o \in S5Ops THEN [g EXCEPT !.want[k] = g.wire[k], !.oks = IF y.r < 0 THEN @ ELSE Append(@, <<p, y.r, y.d>>)]
                  ELSE IF y.r < 0 THEN g
                  ELSE CASE p.o = "brecv" -> [g EXCEPT !.got[k] = RCat(@, y.d)]
                         [] p.o \in {"mrecv", "wrecv"} -> [g EXCEPT !.msgs = Append(@, <<p.bk, y.r, IF p.o = "wrecv" THEN RDrop(y.d, 1) ELSE y.d>>)]
                         [] p.o \in Sends \cup {"mdone", "wdone"} -> [g EXCEPT !.want[k] = RCat(@, Run(s, p).out)]
                         [] p.o \in {"detach", "wsattach"} -> [g EXCEPT !.want[k] = RCat(@, Run(s, p).out)]
                         [] OTHER -> g
  /\ h' = h

---------------------------------------------------------------------------
(* The environment: bytes of the plan, ends, window, errors, time. *)
Env ==
  /\ Room /\ Rest
  /\ \/ \E n \in CUTS : LET d == SubSeq(PLAN, g.pos + 1, g.pos + n) IN
        /\ g.pos + n <= Len(PLAN) /\ s.cn[0].end = "" /\ s.cn[0].cl = 0
        /\ s' = Arrive(s, 0, Lit(d), <<>>)
        /\ g' = [g EXCEPT !.pos = @ + n, !.dlv[0] = RCat(@, Lit(d))]
        /\ h' = Append(h, "@i 0 " \o Commas(d))
     \/ \E l \in LINES :
        /\ DOMAIN s.pd # {} /\ s.cn[0].end = "" /\ s.cn[0].cl = 0
        /\ s' = Arrive(s, 0, Lit(l), <<>>)
        /\ g' = [g EXCEPT !.dlv[0] = RCat(@, Lit(l))]
        /\ h' = Append(h, "@i 0 " \o Commas(l))
     \/ /\ "eof" \in OPS /\ s.cn[0].end = "" /\ s.cn[0].cl = 0
        /\ s' = EndIn(s, 0, "EPIPE") /\ h' = Append(h, "@z 0 1") /\ g' = g
     \/ /\ "rst" \in OPS /\ s.cn[0].end = "" /\ s.cn[0].cl = 0
        /\ s' = TxErr(EndIn(s, 0, "ECONNRESET"), 0, "EPIPE") /\ h' = Append(h, "@z 0 2") /\ g' = g
     \/ /\ "txerr" \in OPS /\ s.cn[0].tx = "" /\ s.cn[0].cl = 0 /\ s.cn[0].sh = 0
        /\ s' = TxErr(s, 0, "EPIPE") /\ h' = Append(h, "@y 0") /\ g' = g
     \/ /\ s.cn[0].win >= 0 /\ s.cn[0].win < 3 /\ s.cn[0].cl = 0
        /\ s' = Window(s, 0, s.cn[0].win + 2) /\ h' = Append(h, "@W 0 " \o TS(s.cn[0].win + 2)) /\ g' = g
     \/ LET D == {s.pd[w].dl : w \in DOMAIN s.pd} \ {-1} IN
        /\ D # {}
        /\ LET d == (CHOOSE x \in D : \A y \in D : x <= y) - s.clk IN
           /\ d > 0
           /\ s' = Polled([s EXCEPT !.clk = @ + d]) /\ h' = Append(h, "@t " \o TS(d)) /\ g' = g
     \/ /\ "cancel" \in OPS
        /\ \E w \in DOMAIN s.pd : s' = [s EXCEPT !.cc = @ \cup {w}] /\ h' = Append(h, "X " \o TS(w)) /\ g' = g
  /\ Emit(h')

Next == DoCall \/ WriteSt \/ EndSt \/ Ret \/ Env
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* What the properties come to on the specification *)
Conns == DOMAIN s.cn
\* objects directly on connection k
OnK(k) == {o \in DOMAIN s.ob : s.ob[o].k = k /\ s.ob[o].u < 0}
Plain == \A b \in LISTS : b # <<>> /\ \A i \in 1..Len(b) : b[i][2] = 1

\* S01: what was received and what is still there is what arrived, in order
\* (unless a receive failed, or a layer took part of it).
StreamIn == (~HANDS /\ LAYERS = <<>> /\ "attach" \notin OPS /\ Plain) =>
  \A k \in Conns : (\A o \in OnK(k) : s.ob[o].ine = 0) => REq(RCat(g.got[k], s.cn[k].in), g.dlv[k])
\* S02, M01: the wire carries what the successful sends carried, in order, and
\* of the call in progress no more than a part from its beginning.
InSend(k) == {w \in DOMAIN s.pd : KOf(s, s.pd[w]) = k /\ s.pd[w].im = {} /\ s.pd[w].o \notin Recvs}
WireOut == \A k \in Conns :
  LET q == InSend(k)  n == RLen(g.want[k])
      ok == \A o \in DOMAIN s.ob : s.ob[o].k = k => s.ob[o].one = 0 /\ s.ob[o].st # "closed" IN
  /\ RAt(g.wire[k], 0, g.want[k])
  /\ ok => IF q = {} THEN RLen(g.wire[k]) = n
           ELSE \E w \in q : RLen(g.wire[k]) = n \/ REq(RDrop(g.wire[k], n), RTake(Run(s, s.pd[w]).out, s.cn[k].sent))
\* S05: once the outbound direction has been ended nothing is sent any more.
DoneEnds == \A o \in DOMAIN s.ob : (s.ob[o].ty \in BSock /\ s.ob[o].ond = 1 /\ s.ob[o].st # "closed") => s.cn[s.ob[o].k].sh = 1
\* M02, M03: the messages received are those that the peer framed, in order.
RECURSIVE Framed(_, _)
Framed(oid, r) ==   \* the messages in r, up to the last complete or the terminal one
  LET m == IF s.ob[oid].ty = "ws" THEN WsNext(s.ob[oid], r, "", -1) ELSE MsgNext(s, oid, r, "", -1) IN
  IF m.st = "ok" THEN <<m.d>> \o Framed(oid, RDrop(r, m.used)) ELSE <<>>
MsgsIn == (LAYERS # <<>> /\ CASE_ \notin {"http", "http2"} /\ "attach" \notin OPS /\ "detach" \notin OPS) =>
  LET top == CHOOSE o \in DOMAIN s.ob : \A x \in DOMAIN s.ob : x <= o
      F == Framed(top, g.dlv[s.ob[top].k]) IN
  s.ob[top].st = "open" =>
  (/\ Len(g.msgs) <= Len(F)
   /\ \A i \in 1..Len(g.msgs) : /\ g.msgs[i][2] = RLen(F[i])
                                /\ g.msgs[i][1] = 2 \/ \E b \in LISTS : b # <<>> /\ REq(g.msgs[i][3], Vis(F[i], b)))
\* S04: who closed an object leaves no descriptor behind, and nobody is in there.
Released == \A o \in DOMAIN s.ob : s.ob[o].st = "closed" =>
  /\ s.ob[o].k < 0 \/ s.cn[s.ob[o].k].cl = 1 \/ \E x \in DOMAIN s.ob : s.ob[x].k = s.ob[o].k /\ s.ob[x].st # "closed"
  /\ \A w \in DOMAIN s.pd : s.pd[w].s # o
\* what is below a layer is below a live one
Stacked == \A o \in DOMAIN s.ob : s.ob[o].st = "under" => Cardinality({x \in DOMAIN s.ob : s.ob[x].u = o /\ s.ob[x].st # "closed"}) = 1
\* A call that is not waiting for anything has a result; one that waits has none
\* but those of time and cancellation.
Decided == \A w \in DOMAIN s.pd :
  LET p == s.pd[w]  k == KOf(s, p)
      RR == Results(s, w, HFor(p), -1, 0) IN
  (CanGoOn(s, p) /\ (p.im # {} \/ Sent(s, p, Run(s, p)))) =>
     \/ RR # {}
     \/ k >= 0 /\ Fatal(p) /\ UNION {Results(x, w, HFor(p), -1, 0) : x \in Closed(s, k, 1 - s.cn[k].sh)} # {}
     \/ p.o \in {"done", "close"} /\ s.cn[k].sh = 0
Patient == \A w \in DOMAIN s.pd : (~CanGoOn(s, s.pd[w]) /\ ~Late(s, s.pd[w]) /\ w \notin s.cc /\ s.pd[w].may = {}) =>
  \A y \in Results(s, w, HFor(s.pd[w]), -1, 0) : y.r < 0 /\ y.x \in Run(s, s.pd[w]).may
\* W03: a handshake succeeds only with all that it takes
NeedLines == IF CASE_ = "hands" THEN {Lf0(nHost, <<104>>), Lf0(nUpgrade, vWebsocket), Lf0(nConnection, vUpgrade), Lf0(nVersion, v13), Lf0(nKey, KEY), CRLF \o CRLF}
             ELSE {Lf0(nUpgrade, vWebsocket), Lf0(nConnection, vUpgrade), Lf0(nAccept, AccTok), CRLF \o CRLF}
NeedFirst == IF CASE_ = "hands" THEN <<71, 69, 84, 32, 47, 32>> \o Http11 \o CRLF ELSE Http11 \o <<32, 49, 48, 49, 32, 83>> \o CRLF
HandOk == (HANDS /\ \E o \in DOMAIN s.ob : s.ob[o].ty = "ws") =>
  /\ RAt(g.dlv[0], 0, Lit(NeedFirst))
  /\ \A l \in NeedLines : RFind(g.dlv[0], l) >= 0
  /\ CASE_ = "hands" => REq(g.wire[0], WsResponse(ACC))
\* K01: the password goes to a proxy only if the proxy asked for it; a call
\* succeeds only if the proxy granted all of it, and grants only what it may.
S5Ok ==
  /\ CASE_ = "s5c" =>
     /\ RFind(g.wire[0], <<1, 1, 117, 1, 112>>) >= 0 => RAt(g.dlv[0], 0, Lit(<<5, 2>>))
     /\ g.oks # <<>> => \E a \in {<<5, 0, 5, 0>>, <<5, 2, 1, 0, 5, 0>>} : RAt(g.dlv[0], 0, Lit(a))
     /\ g.oks # <<>> => \E a \in {<<>>, <<2>>, <<2, 1, 1, 117, 1, 112>>} :
          REq(g.wire[0], RCats(<<Lit(<<5, IF g.oks[1][1].a[1] < 0 THEN 1 ELSE 2, 0>> \o a \o <<5, 1, 0>>),
            IF g.oks[1][1].o = "s5addr" THEN Lit(<<1, 10, 0, 0, 1, 0, 80>>) ELSE Lit(<<3, 1, 104, 0, 80>>)>>))
  /\ CASE_ = "s5p" => \A i \in 1..Len(g.oks) : LET p == g.oks[i][1] IN
     /\ p.o = "s5auth" =>
          LET b == RBytes(g.dlv[0], 0, RLen(g.dlv[0])) IN
          b[1] = 5 /\ \E j \in 1..b[2] : b[2 + j] = 2 * p.a[1]
          /\ p.a[1] = 1 => SubSeq(b, 3 + b[2], 7 + b[2]) = <<1, 1, 117, 1, 112>>
     /\ p.o = "s5cmd" => g.oks[i][2] \in {1, 2, 3} /\ RFind(g.dlv[0], <<5, g.oks[i][2], 0>>) >= 0
Inv == S5Ok /\ HandOk /\ StreamIn /\ WireOut /\ DoneEnds /\ MsgsIn /\ Released /\ Stacked /\ Decided /\ Patient

\* S03, S05: directions that are over stay over.
Sticky == [][\A o \in DOMAIN s.ob : LET a == s.ob[o]  b == s'.ob[o] IN
     /\ a.ind = 1 => b.ind = 1
     /\ a.ond = 1 => b.ond = 1
     /\ (a.ine = 1 /\ b.st # "closed") => b.ine = 1
     /\ (a.one = 1 /\ b.st # "closed") => b.one = 1
     /\ a.st = "closed" => b.st = "closed"]_vars
\* ... and deliver nothing
Silent == [][\A o \in DOMAIN s.ob : (s.ob[o].u < 0 /\ s.ob[o].ine = 1) => g'.got[s.ob[o].k] = g.got[s.ob[o].k]]_vars

Rel(p) == [p EXCEPT !.dl = IF @ < 0 THEN -1 ELSE @ - s.clk]
View == <<[s EXCEPT !.clk = 0, !.pd = [w \in DOMAIN s.pd |-> Rel(s.pd[w])]], g, Len(h)>>
====
