---- MODULE Net ----
(* libdill's sockets: connections, message framing and protocol layers.

   A connection's inbound direction is the rope of bytes that have arrived and
   have not been consumed by a completed call, plus how it ended; its outbound
   direction is what the calls in progress have put on the wire so far. A call
   in progress is a record in pd; what it may return is a function of the
   inbound bytes (Run), of how much of its output was accepted by the system,
   of the clock and of cancellation (Results). *)
EXTENDS Addr, FiniteSets

Hi(a, b) == IF a > b THEN a ELSE b
Lo(a, b) == IF a < b THEN a ELSE b
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Del(f, k) == TLCEval([x \in DOMAIN f \ {k} |-> f[x]])
Huge == 1073741824

---------------------------------------------------------------------------
(* State *)

Init0(clk) == [clk |-> clk, cn |-> <<>>, ob |-> <<>>, pd |-> <<>>, cc |-> {},
               ls |-> <<>>, acc |-> <<>>, st |-> <<>>]

(* A connection as the system sees it.
   in, end: what arrived and was not consumed; "" | "EPIPE" | "ECONNRESET"
   fds: descriptors travelling with bytes <<position from the start of in, id>>
   win: how many more bytes the system accepts, -1: all; tx: error of sends
   sent: bytes put on the wire by the call in progress; sfd: descriptors too
   sh, cl, rst: ended by the library, closed by it, reset by it
   frag: whether the system may split what it delivers or accepts
   est: "ok" established | "prog" in progress | errno *)
NewConn(win, frag, est) == [in |-> <<>>, end |-> "", fds |-> <<>>, win |-> win, tx |-> "",
   sent |-> 0, sfd |-> <<>>, sh |-> 0, cl |-> 0, rst |-> 0, frag |-> frag, est |-> est]

(* An object behind a handle. st: "open" | "under" (another layer owns it) |
   "closed"; ind, ond: inbound (outbound) direction properly ended;
   ine: 0 | 1 failed for good | 2 may have failed (receives either report
   ECONNRESET or go on with the next unit) | 3 as 1, may say EPIPE as well;
   one: 0 | 1 | 2 likewise for sends; a: parameters; d: parameter data *)
NewOb(ty, u, k, a, d) == [ty |-> ty, st |-> "open", u |-> u, k |-> k, ind |-> 0,
   ond |-> 0, ine |-> 0, one |-> 0, a |-> a, d |-> d, x |-> <<>>]

BSock == {"tcp", "ipc"}
MSock == {"prefix", "suffix", "term", "ws"}
Terms == {"term", "http"}     \* end with a message of their own

RECURSIVE Stack(_, _)
Stack(S, o) == IF o < 0 \/ o \notin DOMAIN S.ob THEN {} ELSE {o} \cup Stack(S, S.ob[o].u)

\* what calls get from directions of the layers below that are over
RECURSIVE LowIn(_, _), LowOut(_, _)
LowIn(S, u) ==
  IF u < 0 THEN {} ELSE LET o == S.ob[u] IN
  IF o.ind = 1 THEN {"EPIPE", "ECONNRESET"} ELSE IF o.ine \in {1, 3} THEN {"ECONNRESET"} \cup (IF o.ine = 3 THEN {"EPIPE"} ELSE {})
  ELSE LowIn(S, o.u)
LowOut(S, u) ==
  IF u < 0 THEN {} ELSE LET o == S.ob[u] IN
  IF o.ond = 1 THEN {"EPIPE", "ECONNRESET"} ELSE IF o.one = 1 THEN {"ECONNRESET"} ELSE LowOut(S, o.u)

---------------------------------------------------------------------------
(* Buffer lists: b is a sequence of <<length, has a buffer>> *)

BLen(b) == FoldLeft(LAMBDA a, x : a + x[1], 0, b)
RECURSIVE Vis(_, _)
\* the part of the rope that lands in buffers
Vis(r, b) == IF b = <<>> \/ r = <<>> THEN <<>>
             ELSE LET n == Lo(b[1][1], RLen(r)) IN
                  IF b[1][2] = 1 THEN RCat(RTake(r, n), Vis(RDrop(r, n), Tail(b)))
                  ELSE Vis(RDrop(r, n), Tail(b))
\* kinds of lists: 0 proper, 2 none at all, others malformed
BadList(p) == p.bk \notin {0, 2}
Cap(p) == IF p.bk = 2 THEN -1 ELSE BLen(p.b)

---------------------------------------------------------------------------
(* What a call comes to, given all that has arrived.
   st: "more" (input is missing) | "ok" | "err"; e: the error; out: all that it
   has to send before that; used: bytes consumed; val: the value returned;
   d: the data received; lat: what an error leaves behind; may: errors that may
   be reported although input is missing *)
R0 == [st |-> "more", e |-> "0", out |-> <<>>, used |-> 0, val |-> 0, d |-> <<>>,
       lat |-> "in", may |-> {}, x |-> <<>>]
Ok(used, val, d) == [R0 EXCEPT !.st = "ok", !.used = used, !.val = val, !.d = d]
Er(e, lat, used) == [R0 EXCEPT !.st = "err", !.e = e, !.lat = lat, !.used = used]

\* the end of the stream on a connection, and below a protocol
End(end) == IF end = "" THEN R0
            ELSE IF end = "EPIPE" THEN Er("EPIPE", "ind", 0) ELSE Er("ECONNRESET", "in", 0)
EndM(end) == IF end = "" THEN R0
             ELSE IF end = "EPIPE" THEN Er("EPIPE", "in3", 0) ELSE Er("ECONNRESET", "in", 0)

\* length field of h bytes
Size(bs, be) == LET n == Len(bs)
                    B(i) == bs[IF be = 1 THEN n - i ELSE i + 1] IN
                IF \E i \in 3..(n-1) : B(i) # 0 THEN Huge
                ELSE (IF n > 0 THEN B(0) ELSE 0) + (IF n > 1 THEN 256 * B(1) ELSE 0)
                     + (IF n > 2 THEN 65536 * B(2) ELSE 0)
LenBytes(v, n, be) == LET B(i) == IF i > 3 THEN 0 ELSE (v \div (256^i)) % 256 IN
                      [i \in 1..n |-> B(IF be = 1 THEN n - i ELSE i - 1)]

PrefixNext(o, in, end, C) ==
  LET h == o.a[1]  n == RLen(in) IN
  IF n < h THEN EndM(end)
  ELSE LET sz == Size(RBytes(in, 0, h), o.a[2]) IN
       IF C >= 0 /\ sz > C THEN Er("EMSGSIZE", "in", 0)
       ELSE IF n < h + sz THEN EndM(end)
       ELSE Ok(h + sz, sz, RTake(RDrop(in, h), sz))

SuffixNext(o, in, end, C) ==
  LET L == Len(o.d)  n == RLen(in)  p == RFind(in, o.d) IN
  IF p >= 0 /\ (C < 0 \/ p <= C) THEN Ok(p + L, p, RTake(in, p))
  ELSE IF C >= 0 /\ n >= C + L THEN Er("EMSGSIZE", "in", 0)
  ELSE EndM(end)

\* A frame of WebSocket at pos, frag: in a message of type ty of which tot
\* bytes (acc) came in earlier frames. Masked frames are recorded unmasked.
RECURSIVE WsFrames(_, _, _, _, _, _, _, _, _)
WsFrames(o, in, end, C, pos, frag, ty, tot, acc) ==
  LET n == RLen(in)
      h == RBytes(in, pos, 2)
      op == h[1] % 16  fin == h[1] >= 128
      ext == CASE h[2] % 128 = 126 -> 2 [] h[2] % 128 = 127 -> 8 [] OTHER -> 0
      sz == IF ext = 0 THEN h[2] % 128 ELSE Size(RBytes(in, pos + 2, ext), 1)
      q == pos + 2 + ext + (IF o.a[1] = 1 THEN 4 ELSE 0)
      bad == Er("EPROTO", "in", 0) IN
  IF n < pos + 2 THEN EndM(end)
  ELSE IF (h[1] \div 16) % 8 # 0 \/ op \notin {0, 1, 2, 8} THEN bad
  ELSE IF (op = 0 /\ ~frag) \/ (op \in {1, 2} /\ frag) THEN bad
  ELSE IF (h[2] >= 128) # (o.a[1] = 1) THEN bad
  ELSE IF n < pos + 2 + ext THEN EndM(end)
  ELSE IF op = 8 /\ (sz > 125 \/ ~fin) THEN bad
  ELSE IF n < q THEN EndM(end)
  ELSE IF op = 8 THEN
    IF n < q + sz THEN EndM(end)
    ELSE IF sz = 0 THEN [Er("EPIPE", "ind", q) EXCEPT !.x = <<0, <<>>>>]
    ELSE LET st == 256 * RByte(in, q) + RByte(in, q + 1) IN
         IF sz = 1 \/ st < 1000 \/ st > 4999 THEN bad
         ELSE [Er("EPIPE", "ind", q + sz) EXCEPT !.x = <<st, RTake(RDrop(in, q + 2), sz - 2)>>]
  ELSE IF C >= 0 /\ tot + sz > C THEN
    IF n >= q + C - tot THEN Er("EMSGSIZE", "in", 0) ELSE [EndM(end) EXCEPT !.may = {"EMSGSIZE"}]
  ELSE IF n < q + sz THEN EndM(end)
  ELSE LET t == IF frag THEN ty ELSE IF op = 1 THEN 1 ELSE 0
           d == RCat(acc, RTake(RDrop(in, q), sz)) IN
       IF fin THEN [Ok(q + sz, tot + sz, d) EXCEPT !.x = <<t>>]
       ELSE WsFrames(o, in, end, C, q + sz, TRUE, t, tot + sz, d)
WsNext(o, in, end, C) == WsFrames(o, in, end, C, 0, FALSE, 0, 0, <<>>)
WsFrame(o, op, d) == LET n == RLen(d)  m == IF o.a[1] = 1 THEN 0 ELSE 128 IN
  RCats(<<Lit(<<128 + op>> \o (IF n > 65535 THEN <<m + 127>> \o LenBytes(n, 8, 1)
                               ELSE IF n > 125 THEN <<m + 126>> \o LenBytes(n, 2, 1) ELSE <<m + n>>)
              \o (IF m = 0 THEN <<>> ELSE <<0, 0, 0, 0>>)), d>>)
WsClose(o, p) == WsFrame(o, 8, RCat(Lit(IF p.a[1] = 0 THEN <<>> ELSE LenBytes(p.a[1], 2, 1)), p.d))

RECURSIVE MsgNext(_, _, _, _, _)
MsgNext(S, oid, in, end, C) ==
  LET o == S.ob[oid] IN
  CASE o.ty = "prefix" -> PrefixNext(o, in, end, C)
    [] o.ty = "suffix" -> SuffixNext(o, in, end, C)
    [] o.ty = "ws" -> LET m == WsNext(o, in, end, C) IN
         IF m.st = "ok" /\ m.x[1] # o.a[2] THEN Er("EPROTO", "in2", m.used) ELSE m
    [] o.ty = "http" -> LET m == SuffixNext([d |-> CRLF], in, end, C) IN
         IF m.st = "ok" /\ m.val = 0 THEN Er("EPIPE", "ind", m.used) ELSE m
    [] o.ty = "term" ->
       \* (the end of the messages below is not the end up here)
       LET B(x) == IF x.st = "err" /\ x.lat = "ind" THEN [x EXCEPT !.lat = "in3", !.used = 0] ELSE x
           m == B(MsgNext(S, o.u, in, end, -1))
           c == B(MsgNext(S, o.u, in, end, C)) IN
       IF o.d = <<>> THEN
         IF c.st = "ok" /\ c.val = 0 THEN Er("EPIPE", "ind", c.used) ELSE c
       ELSE IF m.st = "ok" /\ m.val = Len(o.d) /\ RAt(m.d, 0, Lit(o.d)) THEN Er("EPIPE", "ind", m.used)
       ELSE IF m.st = "ok" /\ C >= 0 /\ m.val > C THEN Er("EMSGSIZE", "in2", m.used)
       \* the layer below may notice early that the message is too long
       ELSE IF m.st # "ok" /\ C >= Len(o.d)
         THEN [m EXCEPT !.may = c.may \cup (IF c.st = "err" THEN {c.e} ELSE {})]
       ELSE m

\* All messages up to and including the terminal one
RECURSIVE TermSkip(_, _, _, _, _)
TermSkip(S, oid, in, end, used) ==
  LET m == IF S.ob[oid].ty = "ws" THEN WsNext(S.ob[oid], in, end, -1) ELSE MsgNext(S, oid, in, end, -1) IN
  IF m.st = "ok" THEN TermSkip(S, oid, RDrop(in, m.used), end, used + m.used)
  ELSE IF m.st = "err" /\ m.lat = "ind" THEN Ok(used + m.used, 0, <<>>)
  ELSE m

RECURSIVE MsgOut(_, _, _, _)
MsgOut(S, oid, d, p) ==
  LET o == S.ob[oid] IN
  CASE o.ty = "prefix" -> RCat(Lit(LenBytes(RLen(d), o.a[1], o.a[2])), d)
    [] o.ty = "suffix" -> RCat(d, Lit(o.d))
    [] o.ty = "ws" -> WsFrame(o, IF o.a[2] = 1 THEN 1 ELSE 2, d)
    [] o.ty = "http" -> RCat(d, Lit(CRLF))
    [] o.ty = "term" -> MsgOut(S, o.u, d, p)
EndOut(S, oid, p) ==
  LET o == S.ob[oid] IN
  CASE o.ty = "http" -> MsgOut(S, oid, <<>>, p)
    [] o.ty = "ws" -> WsClose(o, p)
    [] OTHER -> MsgOut(S, o.u, Lit(o.d), p)

(* The opening handshake of WebSocket. The client's key and the answer to it
   are recorded as tokens; acc maps the keys offered to a server, those that
   are valid, to the answers. *)
KeyTok == [i \in 1..24 |-> 75]
AccTok == [i \in 1..28 |-> 65]
nHost == <<72, 111, 115, 116>>
nUpgrade == <<85, 112, 103, 114, 97, 100, 101>>
nConnection == <<67, 111, 110, 110, 101, 99, 116, 105, 111, 110>>
nKey == <<83, 101, 99, 45, 87, 101, 98, 83, 111, 99, 107, 101, 116, 45, 75, 101, 121>>
nVersion == <<83, 101, 99, 45, 87, 101, 98, 83, 111, 99, 107, 101, 116, 45, 86, 101, 114, 115, 105, 111, 110>>
nAccept == <<83, 101, 99, 45, 87, 101, 98, 83, 111, 99, 107, 101, 116, 45, 65, 99, 99, 101, 112, 116>>
vWebsocket == <<119, 101, 98, 115, 111, 99, 107, 101, 116>>
vUpgrade == <<85, 112, 103, 114, 97, 100, 101>>
v13 == <<49, 51>>
vSwitching == <<83, 119, 105, 116, 99, 104, 105, 110, 103, 32, 80, 114, 111, 116, 111, 99, 111, 108, 115>>
Lf(name, v) == RCat(Field(Lit(name), v), Lit(CRLF))
WsRequest(res, host) ==
  RCats(<<Req(Lit(GET), res), Lit(CRLF), Lf(nHost, host), Lf(nUpgrade, Lit(vWebsocket)), Lf(nConnection, Lit(vUpgrade)),
          Lf(nKey, Lit(KeyTok)), Lf(nVersion, Lit(v13)), Lit(CRLF)>>)
WsResponse(acc) ==
  RCats(<<Stat(101, Lit(vSwitching)), Lit(CRLF), Lf(nUpgrade, Lit(vWebsocket)), Lf(nConnection, Lit(vUpgrade)),
          Lf(nAccept, Lit(acc)), Lit(CRLF)>>)
\* The fields from position pos on; got: lower-case name -> value so far.
\* m.need: the fields that must be there once; what the value of each must be:
\* m.acc the set of keys, m.hl the size of the buffer for the host.
OrProto(c) == IF c THEN "0" ELSE "EPROTO"
WsField(m, n, v) ==
  CASE n = Lower(nUpgrade) -> OrProto(Lower(v) = vWebsocket)
    [] n = Lower(nConnection) -> OrProto(Lower(v) = Lower(vUpgrade))
    [] n = Lower(nVersion) -> OrProto(v = v13)
    [] n = Lower(nHost) -> IF Len(v) >= m.hl THEN "EMSGSIZE" ELSE "0"
    [] n = Lower(nKey) -> OrProto(v \in m.acc)
    [] n = Lower(nAccept) -> OrProto(v = AccTok)
RECURSIVE WsFields(_, _, _, _, _)
WsFields(m, in, end, pos, got) ==
  LET l == SuffixNext([d |-> CRLF], RDrop(in, pos), end, 1023) IN
  IF l.st = "err" /\ l.e = "EPIPE" THEN   \* the fields just stop
    IF m.need \subseteq DOMAIN got THEN [Er("EPIPE", "in", 0) EXCEPT !.x = <<got>>, !.may = {"ECONNRESET"}] ELSE Er("EPROTO", "in", 0)
  ELSE IF l.st # "ok" THEN l
  ELSE IF l.val = 0 THEN
    IF m.need \subseteq DOMAIN got THEN [Ok(pos + l.used, 0, <<>>) EXCEPT !.x = <<got>>] ELSE Er("EPROTO", "in", 0)
  ELSE LET f == PField(RBytes(l.d, 0, l.val), 256, 256) IN
    IF f.e # "0" THEN Er(f.e, "in", 0)
    ELSE LET n == Lower(f.p[1]) IN
      IF n \notin m.need THEN WsFields(m, in, end, pos + l.used, got)
      ELSE IF n \in DOMAIN got THEN Er("EPROTO", "in", 0)
      ELSE LET x == WsField(m, n, f.p[2]) IN
        IF x # "0" THEN Er(x, "in", 0)
        ELSE WsFields(m, in, end, pos + l.used, Put(got, n, f.p[2]))
WsClientIn(in, end) ==
  LET l == SuffixNext([d |-> CRLF], in, end, 1023)
      m == [need |-> {Lower(nUpgrade), Lower(nConnection), Lower(nAccept)}, hl |-> 0, acc |-> {}] IN
  IF l.st # "ok" THEN l
  ELSE IF l.val = 0 THEN Er("EPIPE", "in", 0)
  ELSE LET f == PStat(RBytes(l.d, 0, l.val), 256) IN
    IF f.e # "0" THEN Er(f.e, "in", 0)
    ELSE IF f.v # 101 THEN Er("EPROTO", "in", 0)
    ELSE WsFields(m, in, end, l.used, <<>>)
WsServerIn(S, in, end, rl, hl) ==
  LET l == SuffixNext([d |-> CRLF], in, end, 1023)
      m == [need |-> {Lower(nHost), Lower(nUpgrade), Lower(nConnection), Lower(nKey), Lower(nVersion)},
            hl |-> hl, acc |-> DOMAIN S.acc] IN
  IF l.st # "ok" THEN l
  ELSE IF l.val = 0 THEN Er("EPIPE", "in", 0)
  ELSE LET f == PReq(RBytes(l.d, 0, l.val), 32, rl) IN
    IF f.e # "0" THEN Er(f.e, "in", 0)
    ELSE IF f.p[1] # GET THEN Er("EPROTO", "in", 0)
    ELSE LET w == WsFields(m, in, end, l.used, <<>>) IN
      IF w.x = <<>> THEN w
      ELSE LET got == w.x[1] IN
        [w EXCEPT !.d = IF w.st = "ok" THEN RCats(<<Lit(f.p[2]), Lit(<<0>>), Lit(got[Lower(nHost)])>>) ELSE <<>>,
                  !.out = WsResponse(S.acc[got[Lower(nKey)]]), !.x = <<>>]

(* SOCKS5. The calls send and receive in turns; out is all that is to be sent
   given what has arrived. An error in the middle leaves both directions at an
   unknown place ("io2"); a proper refusal (of the peer's or by this side) does
   not.
   s5addr, s5name (client): a = <<length of the user's name, of the password
     (-1: none), port, no host>>, d = name, password, and address or host
   s5auth (proxy): a = <<there is a function that checks>>, d = what it accepts
   s5cmd (proxy): t = "addr" | "name"     s5reply: a = <<code, port>>, d = address *)
S5Ops == {"s5addr", "s5name", "s5auth", "s5cmd", "s5reply"}
S5Codes == <<"EIO", "EACCES", "ENETUNREACH", "EHOSTUNREACH", "ECONNREFUSED", "ETIMEDOUT", "ENOTSUP", "EAFNOSUPPORT">>
S5Bad(e) == Er(e, "io2", 0)
S5No(e, used) == Er(e, "none", used)
Sends5(R, out) == [R EXCEPT !.out = out]
S5Adr(a, port) == Lit((IF Len(a) = 4 THEN <<1>> ELSE <<4>>) \o a \o LenBytes(port, 2, 1))
\* the request or reply at pos; used: its length
S5Packet(in, end, pos) ==
  LET n == RLen(in) - pos  B(i) == RByte(in, pos + i)
      need == CASE B(3) = 1 -> 10 [] B(3) = 4 -> 22 [] OTHER -> 7 + B(4) IN
  IF n < 4 THEN End(end)
  ELSE IF B(0) # 5 \/ B(2) # 0 \/ B(3) \notin {1, 3, 4} THEN S5Bad("EPROTO")
  ELSE IF (B(3) = 3 /\ n < 5) \/ n < need THEN End(end)
  ELSE Ok(need, B(1), <<>>)
S5Ask(p, in, end, pos, out) ==
  LET cred == Hi(p.a[1], 0) + Hi(p.a[2], 0)
      host == RDrop(p.d, cred)
      hb == IF p.o = "s5addr" \/ RLen(host) < 46 THEN RBytes(host, 0, RLen(host)) ELSE <<>>
      lit == IF p.o = "s5addr" THEN hb ELSE AddrParse(hb)
      r == S5Packet(in, end, pos) IN
  IF p.a[4] = 1 \/ p.a[3] < 1 \/ p.a[3] > 65535 \/ (p.o = "s5name" /\ RLen(host) > 255) THEN Sends5(S5Bad("EINVAL"), out)
  ELSE Sends5(IF r.st # "ok" THEN r ELSE IF r.val = 0 THEN Ok(pos + r.used, 0, <<>>)
              ELSE IF r.val > 8 THEN S5Bad("EPROTO") ELSE S5No(S5Codes[r.val], pos + r.used),
              RCats(<<out, Lit(<<5, 1, 0>>),
                      IF lit # <<>> THEN S5Adr(lit, p.a[3])
                      ELSE RCats(<<Lit(<<3, RLen(host)>>), host, Lit(LenBytes(p.a[3], 2, 1))>>)>>))
S5Client(p, in, end) ==
  LET n == RLen(in)  B(i) == RByte(in, i)
      has == p.a[1] >= 0 /\ p.a[2] >= 0
      greet == Lit(IF has THEN <<5, 2, 0, 2>> ELSE <<5, 1, 0>>)
      cred == RCats(<<greet, Lit(<<1, p.a[1]>>), RTake(p.d, p.a[1]), Lit(<<p.a[2]>>), RTake(RDrop(p.d, p.a[1]), p.a[2])>>) IN
  IF n < 2 THEN Sends5(End(end), greet)
  ELSE IF B(0) # 5 \/ B(1) \notin {0, 2, 255} \/ (B(1) = 2 /\ ~has) THEN Sends5(S5Bad("EPROTO"), greet)
  ELSE IF B(1) = 255 THEN Sends5(S5No("EACCES", 2), greet)
  ELSE IF B(1) = 0 THEN S5Ask(p, in, end, 2, greet)
  ELSE IF n < 4 THEN Sends5(End(end), cred)
  ELSE IF B(2) # 1 THEN Sends5(S5Bad("EPROTO"), cred)
  ELSE IF B(3) # 0 THEN Sends5(S5No("EACCES", 4), cred)
  ELSE S5Ask(p, in, end, 4, cred)
S5Auth(p, in, end) ==
  LET n == RLen(in)  B(i) == RByte(in, i)
      nm == B(1)  q == 2 + nm
      ms == {B(1 + i) : i \in 1..nm}
      ul == B(q + 1)  pl == B(q + 2 + ul)  z == q + 3 + ul + pl
      ask == Lit(<<5, 2>>) IN
  IF n < 2 THEN End(end)
  ELSE IF B(0) # 5 THEN S5Bad("EPROTO")
  ELSE IF n < q THEN End(end)
  ELSE IF p.a[1] = 0 /\ 0 \in ms THEN Sends5(Ok(q, 0, <<>>), Lit(<<5, 0>>))
  ELSE IF p.a[1] = 0 \/ 2 \notin ms THEN Sends5(S5No("EACCES", q), Lit(<<5, 255>>))
  ELSE IF n < q + 2 THEN Sends5(End(end), ask)
  ELSE IF B(q) # 1 THEN Sends5(S5Bad("EPROTO"), ask)
  ELSE IF n < q + 3 + ul \/ n < z THEN Sends5(End(end), ask)
  ELSE IF REq(RCats(<<RTake(RDrop(in, q + 2), ul), Lit(<<0>>), RTake(RDrop(in, q + 3 + ul), pl)>>), p.d)
    THEN Sends5(Ok(z, 0, <<>>), RCat(ask, Lit(<<1, 0>>)))
  ELSE Sends5(S5No("EACCES", z), RCat(ask, Lit(<<1, 255>>)))
\* Names are looked up (in the tests: those with an x first are not found, the
\* address of others ends with the length).
S5Lookup(b) == IF V4Parse(b) # <<>> THEN V4Parse(b) ELSE IF b[1] = 120 THEN <<>> ELSE <<10, 0, 0, Len(b)>>
S5Cmd(p, in, end) ==
  LET r == S5Packet(in, end, 0)  B(i) == RByte(in, i)
      name == B(3) = 3
      b == IF name THEN RBytes(in, 5, B(4)) ELSE RBytes(in, 4, IF B(3) = 1 THEN 4 ELSE 16)
      port == Lit(RBytes(in, r.used - 2, 2))
      a == IF name THEN S5Lookup(b) ELSE b IN
  IF r.st # "ok" THEN r
  ELSE IF r.val \notin {1, 2, 3} THEN S5Bad("EPROTO")
  ELSE IF p.t = "name" THEN Ok(r.used, r.val, RCats(<<Lit(IF name THEN b ELSE AddrText(b)), Lit(<<0>>), port>>))
  ELSE IF a = <<>> THEN S5No("EADDRNOTAVAIL", r.used)
  ELSE Ok(r.used, r.val, RCat(Lit(a), port))
S5Run(p, in, end) ==
  CASE p.o \in {"s5addr", "s5name"} -> S5Client(p, in, end)
    [] p.o = "s5auth" -> S5Auth(p, in, end)
    [] p.o = "s5cmd" -> S5Cmd(p, in, end)
    [] p.o = "s5reply" -> [Ok(0, 0, <<>>) EXCEPT !.out = RCats(<<Lit(<<5, p.a[1], 0>>), S5Adr(RBytes(p.d, 0, RLen(p.d)), p.a[2])>>)]
S5Im(S, p) ==
  [must |-> CASE p.o \in {"s5addr", "s5name"} -> IF p.a[1] > 255 \/ p.a[2] > 255 THEN {"EINVAL"} ELSE {}
              [] p.o = "s5reply" -> IF p.a[1] < 0 \/ p.a[1] > 8 THEN {"EINVAL"} ELSE {}
              [] OTHER -> {},
   may |-> IF p.o \in {"s5addr", "s5name"} /\ (p.a[4] = 1 \/ p.a[3] < 1 \/ p.a[3] > 65535 
                                                     \/ RLen(p.d) - Hi(p.a[1], 0) - Hi(p.a[2], 0) > 255) THEN {"EINVAL"} ELSE {}]

\* the length field is too short for the message
RECURSIVE TooLong(_, _, _)
TooLong(S, oid, n) ==
  LET o == S.ob[oid] IN
  CASE o.ty = "prefix" -> o.a[1] < 3 /\ n >= 256 ^ o.a[1]
    [] o.ty = "term" -> TooLong(S, o.u, n)
    [] OTHER -> FALSE

(* Making sockets: o is "fromfd", "connect", "accept", "listen" or "pair".
   t: what is wanted, "tcp", "ipc", "tcpl", "ipcl" (listeners), "udp"
   fromfd: a = <<what the descriptor is: 1 stream, 2 datagram, 3 no socket,
     4 not open, 5 negative; family; listening; memory missing>>
   connect: a = <<memory missing, name too long>>
   accept: a = <<memory missing>>, s: the listener
   listen: a = <<memory missing, name too long, port, address in use>> *)
Makes == {"fromfd", "connect", "accept", "listen", "pair"}
MakeErr(S, p) ==
  LET a == p.a IN
  CASE p.o = "fromfd" ->
     (IF a[1] = 5 \/ a[4] = 1 THEN {"EINVAL"} ELSE {})
     \cup (IF a[1] = 4 THEN {"EBADF"} ELSE {})
     \cup (IF a[1] = 3 THEN {"ENOTSOCK", "EINVAL"} ELSE {})
     \cup (IF a[1] \in {1, 2} /\ (a[1] # (IF p.t = "udp" THEN 2 ELSE 1)
              \/ a[3] # (IF p.t \in {"tcpl", "ipcl"} THEN 1 ELSE 0)
              \/ a[2] \notin (IF p.t \in {"ipc", "ipcl"} THEN {1} ELSE {4, 6})) THEN {"EINVAL"} ELSE {})
    [] p.o \in {"connect", "listen"} ->
     (IF a[1] = 1 THEN {"EINVAL"} ELSE {}) \cup (IF a[2] = 1 THEN {"ENAMETOOLONG"} ELSE {})
     \cup (IF p.o = "listen" /\ a[4] = 1 THEN {"EADDRINUSE"} ELSE {})
    [] p.o = "accept" ->
     (IF a[1] = 1 THEN {"EINVAL"} ELSE {})
     \cup (IF S.ob[p.s].ty # p.t \o "l" THEN {"ENOTSUP"} ELSE {})
    [] p.o = "pair" -> IF a[1] = 1 THEN {"EINVAL"} ELSE {}

\* the first incoming connection that was not aborted
Head1(q) == SelectInSeq(q, LAMBDA x : x # <<"ECONNABORTED">>)
MakeRun(S, p) ==
  CASE p.o = "fromfd" -> Ok(0, 0, <<>>)
    [] p.o = "pair" -> Ok(0, 0, <<>>)
    [] p.o = "listen" -> Ok(0, p.a[3], <<>>)
    [] p.o = "connect" ->
       IF p.k < 0 THEN R0
       ELSE LET e == S.cn[p.k].est IN
            IF e = "ok" THEN Ok(0, 0, <<>>) ELSE IF e = "prog" THEN R0 ELSE Er(e, "none", 0)
    [] p.o = "accept" ->
       LET q == S.ls[p.s]  i == Head1(q) IN
       IF i = 0 THEN R0
       ELSE IF q[i][1] = "conn" THEN [Ok(0, q[i][3], <<>>) EXCEPT !.x = <<i, q[i][2]>>]
       ELSE [Er(q[i][1], "none", 0) EXCEPT !.x = <<i>>]

Run(S, p) ==
  IF p.o \in Makes THEN MakeRun(S, p) ELSE
  LET o == S.ob[p.s]
      c == S.cn[o.k]
      in == c.in  end == c.end
      \* a failed direction makes the handshake of a detach or close fail
      bad == o.ine \in {1, 3} \/ o.one = 1
      shut == IF o.ond = 0 /\ c.sh = 0 /\ (c.tx # "" \/ end = "ECONNRESET")
              THEN Er("ECONNRESET", "out", 0) ELSE Ok(0, 0, <<>>) IN
  CASE p.o \in S5Ops -> S5Run(p, in, end)
    [] p.o = "bsend" -> [Ok(0, 0, <<>>) EXCEPT !.out = p.d]
    [] p.o = "brecv" ->
       IF p.bk = 2 THEN End(end)
       ELSE LET n == BLen(p.b) IN
            IF RLen(in) >= n THEN Ok(n, 0, Vis(RTake(in, n), p.b)) ELSE End(end)
    [] p.o = "sendfd" -> [Ok(0, 0, <<>>) EXCEPT !.out = Lit(<<204>>)]
    [] p.o = "recvfd" ->
       IF RLen(in) < 1 THEN End(end)
       ELSE IF c.fds # <<>> /\ c.fds[1][1] = 0 THEN Ok(1, c.fds[1][2], <<>>)
       ELSE Er("EPROTO", "in", 0)
    [] p.o = "done" -> shut
    [] p.o = "close" ->
       IF o.k < 0 THEN Ok(0, 0, <<>>) ELSE
       IF o.ine \in {1, 3} \/ o.one = 1 THEN Er("ECONNRESET", "gone", 0)
       ELSE LET r == IF shut.st = "err" THEN shut
                     ELSE IF o.ind = 1 \/ end = "EPIPE" THEN Ok(0, 0, <<>>)
                     ELSE IF end # "" THEN Er("ECONNRESET", "gone", 0)
                     ELSE R0 IN
            IF o.ine = 2 \/ o.one = 2 THEN [r EXCEPT !.may = @ \cup {"ECONNRESET"}] ELSE r
    [] p.o \in {"hclose", "attach"} -> Ok(0, 0, <<>>)
    [] p.o = "msend" -> [Ok(0, 0, <<>>) EXCEPT !.out = MsgOut(S, p.s, p.d, p)]
    [] p.o = "mrecv" ->
       LET m == MsgNext(S, p.s, in, end, Cap(p)) IN
       IF m.st = "ok" THEN [m EXCEPT !.d = Vis(m.d, p.b)] ELSE m
    [] p.o \in {"mdone", "wdone"} -> [Ok(0, 0, <<>>) EXCEPT !.out = EndOut(S, p.s, p)]
    [] p.o = "hsend" -> [Ok(0, 0, <<>>) EXCEPT !.out = MsgOut(S, p.s,
         LET x == RTake(p.d, p.a[1])  y == RDrop(p.d, p.a[1]) IN
         CASE p.t = "req" -> Req(x, y) [] p.t = "stat" -> Stat(p.a[1], p.d) [] OTHER -> Field(x, y), p)]
    [] p.o = "hrecv" ->
       LET m == MsgNext(S, p.s, in, end, 1023) IN
       IF m.st # "ok" THEN m
       ELSE LET b == RBytes(m.d, 0, m.val)
                f == CASE p.t = "req" -> PReq(b, p.a[1], p.a[2]) [] p.t = "stat" -> PStat(b, p.a[1])
                       [] OTHER -> PField(b, p.a[1], p.a[2]) IN
            IF f.e # "0" THEN Er(f.e, "in2", m.used)
            ELSE Ok(m.used, f.v, IF Len(f.p) = 1 THEN Lit(f.p[1]) ELSE Lit(f.p[1] \o <<0>> \o f.p[2]))
    [] p.o = "wsend" -> [Ok(0, 0, <<>>) EXCEPT !.out = WsFrame(o, IF p.a[1] = 1 THEN 1 ELSE 2, p.d)]
    [] p.o = "wrecv" ->
       LET m == WsNext(o, in, end, Cap(p)) IN
       IF m.st = "ok" THEN [m EXCEPT !.d = RCat(Lit(m.x), Vis(m.d, p.b))] ELSE m
    [] p.o = "wstatus" -> Ok(0, RLen(o.x[2]), RCat(Lit(LenBytes(o.x[1], 2, 1)), IF p.a[2] = 1 THEN <<>> ELSE o.x[2]))
    [] p.o = "wsattach" ->
       IF p.t = "client" THEN [WsClientIn(in, end) EXCEPT !.out = WsRequest(RTake(p.d, p.a[1]), RDrop(p.d, p.a[1])), !.x = <<>>]
       ELSE WsServerIn(S, in, end, p.a[1], p.a[4])
    [] p.o = "detach" ->
       IF o.ty \notin Terms \cup {"ws"} THEN Ok(0, 0, <<>>)
       ELSE [(IF o.ind = 0 /\ (o.ine \in {1, 3} \/ LowIn(S, o.u) # {}) THEN
                [Er("ECONNRESET", "gone", 0) EXCEPT !.may = IF o.ine = 3 THEN {"EPIPE"} ELSE LowIn(S, o.u)]
              ELSE IF o.ind = 1 THEN Ok(0, 0, <<>>) ELSE TermSkip(S, p.s, in, end, 0))
             EXCEPT !.out = IF o.ond = 1 THEN <<>> ELSE EndOut(S, p.s, p)]

---------------------------------------------------------------------------
(* Errors that are known when the call is made. must: the call fails with one
   of the errors in must or may; may: it may fail so. *)
Sends == {"bsend", "msend", "sendfd", "hsend", "wsend"}
Recvs == {"brecv", "mrecv", "recvfd", "hrecv", "wrecv"}
Dones == {"done", "mdone", "wdone"}
\* calls that end the object, whatever they return
Ends == {"close", "hclose", "detach"}

Needs(op, ty) ==
  CASE op \in {"bsend", "brecv"} -> ty \in BSock
    [] op \in {"sendfd", "recvfd"} -> ty = "ipc"
    [] op \in {"msend", "mrecv"} -> ty \in MSock
    [] op = "done" -> ty \in BSock
    [] op = "close" -> ty \in BSock \cup {"tcpl", "ipcl"}
    [] op = "mdone" -> ty \in Terms
    [] op \in {"hsend", "hrecv"} -> ty = "http"
    [] op \in {"wsend", "wrecv", "wdone", "wstatus"} -> ty = "ws"
    [] op \in S5Ops -> ty \in BSock
    [] op = "closex" -> FALSE      \* a close function of another type
    [] OTHER -> TRUE

SameDir(S, p, dir) ==   \* another call is in this direction of the object
  \E w \in DOMAIN S.pd : S.pd[w].s = p.s /\ S.pd[w].im = {} /\ S.pd[w].o \in dir

AttachErr(S, p) ==
  LET o == S.ob[p.s]  ty == p.t IN
  (IF p.a[Len(p.a)] = 1 THEN {"EINVAL"} ELSE {})          \* memory missing
  \cup (CASE ty = "prefix" -> IF p.a[1] = 0 THEN {"EINVAL"} ELSE {}
          [] ty = "suffix" -> IF RLen(p.d) = 0 \/ RLen(p.d) > 32 THEN {"EINVAL"} ELSE {}
          [] ty = "term" -> IF RLen(p.d) > 32 THEN {"EINVAL"} ELSE {}
          [] OTHER -> {})
  \cup (IF ty \in {"prefix", "suffix"} /\ o.ty \notin BSock THEN {"EPROTO"} ELSE {})
  \cup (IF ty = "term" /\ o.ty \notin MSock THEN {"EPROTO"} ELSE {})
  \cup (IF ty \in {"http", "ws", "client", "server"} /\ o.ty \notin BSock THEN {"EPROTO", "ENOTSUP"} ELSE {})
\* status and text of WebSocket's close frame
CloseErr(p) == IF (p.a[1] # 0 /\ (p.a[1] < 1000 \/ p.a[1] > 4999)) \/ p.a[2] = 1 \/ RLen(p.d) > 123
                  \/ (p.a[1] = 0 /\ p.d # <<>>) THEN {"EINVAL"} ELSE {}

Im(S, p) ==
  LET no == [must |-> {}, may |-> {}]
      M(e) == [must |-> e, may |-> {}] IN
  IF p.o \in Makes THEN M(MakeErr(S, p)) ELSE
  LET o == S.ob[p.s] IN
  IF ~Needs(p.o, o.ty) THEN M({"ENOTSUP"})
  ELSE CASE
     p.o \in Recvs ->
       [must |-> (IF p.o # "recvfd" /\ BadList(p) THEN {"EINVAL"} ELSE {})
           \cup (IF SameDir(S, p, Recvs) THEN {"EBUSY"} ELSE {})
           \cup (IF o.ind = 1 THEN {"EPIPE"} ELSE {})
           \cup (IF o.ind = 0 /\ o.ine \in {1, 3} THEN {"ECONNRESET"} ELSE {})
           \cup (IF o.ind = 0 THEN LowIn(S, o.u) ELSE {}),
        may |-> IF o.ind = 1 THEN {} ELSE (IF o.ine = 2 THEN {"ECONNRESET"} ELSE {})
           \cup (IF o.ine = 3 THEN {"EPIPE"} ELSE {})]
    [] p.o \in Sends ->
       [must |-> (IF p.o # "sendfd" /\ p.bk # 0 THEN {"EINVAL"} ELSE {})
           \cup (IF p.o = "sendfd" /\ p.a[1] < 0 THEN {"EINVAL"} ELSE {})
           \cup (IF p.o # "hsend" THEN {} ELSE
                 CASE p.t = "req" -> ReqErr(RTake(p.d, p.a[1]), RDrop(p.d, p.a[1]))
                   [] p.t = "stat" -> StatErr(p.a[1], p.d)
                   [] OTHER -> FieldErr(RTake(p.d, p.a[1]), RDrop(p.d, p.a[1])))
           \cup (IF SameDir(S, p, Sends) THEN {"EBUSY"} ELSE {})
           \cup (IF o.ond = 1 THEN {"EPIPE"} ELSE {})
           \cup (IF o.ond = 0 /\ o.one = 1 THEN {"ECONNRESET"} ELSE {})
           \cup (IF o.ond = 0 THEN LowOut(S, o.u) ELSE {})
           \cup (IF p.o = "msend" /\ p.bk = 0 /\ TooLong(S, p.s, RLen(p.d)) THEN {"EMSGSIZE"} ELSE {}),
        may |-> IF o.one = 2 THEN {"ECONNRESET"} ELSE {}]
    [] p.o = "wstatus" ->
       M((IF p.a[2] = 1 /\ p.a[1] > 0 THEN {"EINVAL"} ELSE {})
         \cup (IF o.ind = 0 THEN {"EAGAIN"} ELSE IF p.a[2] = 0 /\ p.a[1] < RLen(o.x[2]) THEN {"EMSGSIZE"} ELSE {}))
    [] p.o \in Dones ->
       [must |-> (IF p.o = "wdone" THEN CloseErr(p) ELSE {}) \cup (IF o.ond = 1 THEN {"EPIPE"} ELSE {})
           \cup (IF o.ond = 0 /\ o.one = 1 THEN {"ECONNRESET"} ELSE {})
           \cup (IF o.ond = 0 THEN LowOut(S, o.u) ELSE {}),
        may |-> IF o.one = 2 THEN {"ECONNRESET"} ELSE {}]
    [] p.o \in S5Ops -> S5Im(S, p)
    [] p.o = "attach" -> M(AttachErr(S, p))
    [] p.o = "wsattach" ->
       M(AttachErr(S, p)
         \cup (IF p.t = "client" /\ p.a[2] = 1 THEN {"EINVAL"} ELSE {})     \* no resource or host
         \cup (IF p.t = "client" /\ p.a[2] = 0 THEN ReqErr(Lit(GET), RTake(p.d, p.a[1])) ELSE {})
         \cup LowIn(S, p.s) \cup LowOut(S, p.s))
    [] p.o = "detach" ->
       [must |-> (IF (o.ine \in {1, 3} /\ o.ind = 0 /\ o.ty \notin Terms \cup {"ws"}) \/ (o.one = 1 /\ o.ond = 0)
                  THEN {"ECONNRESET"}
                  ELSE IF o.ty \in Terms \cup {"ws"} /\ o.ond = 0 THEN LowOut(S, o.u) ELSE {})
                 \cup (IF o.ty = "ws" /\ o.ond = 0 THEN CloseErr(p) ELSE {}),
        may |-> (IF o.ine = 3 THEN {"EPIPE"} ELSE {}) \cup
                (IF o.ine = 2 \/ o.one = 2 THEN {"ECONNRESET"} ELSE {})]
    [] OTHER -> no

---------------------------------------------------------------------------
(* Calls *)

\* the connection a call works on, -1 if there is none (yet)
KOf(S, p) == IF p.s >= 0 THEN S.ob[p.s].k ELSE p.k
Sent(S, p, R) == p.o \in Recvs \cup Makes \cup {"wstatus"} \/ KOf(S, p) < 0 \/ S.cn[KOf(S, p)].sent = RLen(R.out)

\* Can the call go on without waiting for anything?
CanGoOn(S, p) ==
  \/ p.im # {}
  \/ LET R == Run(S, p)  c == S.cn[KOf(S, p)] IN
     IF Sent(S, p, R) THEN R.st # "more" ELSE c.tx # "" \/ c.win # 0

Late(S, p) == p.dl >= 0 /\ S.clk >= p.dl

\* All that is needed is there already, and the system does not deal it out in
\* parts: then the call must not time out any more. (Input that ends before the
\* call is served takes a second look at the connection, and so does skipping a
\* long part.)
Sync(S, p) ==
  IF p.o \in Makes THEN p.im = {} /\ Run(S, p).st # "more" /\ p.o # "connect" ELSE
  /\ KOf(S, p) >= 0 /\ p.im = {} /\ S.cn[KOf(S, p)].frag = 0
  /\ LET R == Run(S, p)  c == S.cn[KOf(S, p)] IN
     /\ IF p.o = "close" THEN R.st # "more" /\ c.in = <<>>
        ELSE R.st = "ok" \/ (R.st = "err" /\ c.in = <<>>)
     /\ p.o \in Recvs => R.used <= 1900 \/ (p.bk = 0 /\ \A j \in 1..Len(p.b) : p.b[j][2] = 1)
     /\ Sent(S, p, R) \/ (c.tx = "" /\ (c.win < 0 \/ c.win >= RLen(R.out) - c.sent))

\* p: [o, s, t, bk, b, d, a, dl]
Call(S, w, p) ==
  LET im == Im(S, p)
      q == p @@ [im |-> im.must, may |-> im.may, sync |-> FALSE]
      k == KOf(S, p)
      S1 == [S EXCEPT !.pd = Put(S.pd, w, q)]
      S2 == IF k < 0 \/ p.o \in Recvs \cup {"wstatus"} \/ im.must # {} THEN S1
            ELSE [S1 EXCEPT !.cn[k].sent = 0, !.cn[k].sfd = <<>>] IN
  IF Sync(S2, q) THEN [S2 EXCEPT !.pd[w].sync = TRUE] ELSE S2

---------------------------------------------------------------------------
(* Returns. Each possible result is [r, x, d, S]: value, error, data received
   and the state afterwards. h: the object behind a returned handle. *)

CloseOb(S, o) == LET st == Stack(S, o) IN
  [S EXCEPT !.ob = TLCEval([i \in DOMAIN S.ob |-> IF i \in st THEN [S.ob[i] EXCEPT !.st = "closed"] ELSE S.ob[i]])]

\* the descriptor is closed, and unless the stream was ended before, reset
GoneK(S, k) == S.cn[k].cl = 1 /\ (S.cn[k].sh = 1 \/ S.cn[k].rst = 1)
Gone(S, o) == S.ob[o].k < 0 \/ GoneK(S, S.ob[o].k)

Latch(S, p, R) ==   \* what an error leaves behind
  LET o == p.s  k == KOf(S, p)
      S1 == IF R.used > 0 THEN [S EXCEPT !.cn[k].in = RDrop(@, R.used)] ELSE S IN
  CASE R.lat = "in" -> [S1 EXCEPT !.ob[o].ine = 1]
    [] R.lat = "in2" -> [S1 EXCEPT !.ob[o].ine = 2]
    [] R.lat = "in3" -> [S1 EXCEPT !.ob[o].ine = 3]
    [] R.lat = "ind" -> [S1 EXCEPT !.ob[o].ind = 1, !.ob[o].x = R.x]
    [] R.lat = "io2" -> [S1 EXCEPT !.ob[o].ine = Hi(2, @), !.ob[o].one = Hi(2, @)]
    [] R.lat = "out" -> [S1 EXCEPT !.ob[o].one = 1]
    [] OTHER -> S1

DropFds(f, n) == LET g == SelectSeq(f, LAMBDA x : x[1] >= n) IN [i \in 1..Len(g) |-> <<g[i][1] - n, g[i][2]>>]

After(S, w, p, h, R) ==   \* success
  LET k == KOf(S, p)  o == p.s
      S1 == [S EXCEPT !.pd = Del(S.pd, w)]
      S2 == IF R.used > 0 THEN [S1 EXCEPT !.cn[k].in = RDrop(@, R.used),
                                          !.cn[k].fds = DropFds(@, R.used)] ELSE S1 IN
  CASE p.o = "done" -> [S2 EXCEPT !.ob[o].ond = 1]
    [] p.o \in {"mdone", "wdone"} -> [S2 EXCEPT !.ob[o].ond = 1]
    [] p.o = "wsattach" ->
       [S2 EXCEPT !.ob = Put([S2.ob EXCEPT ![o].st = "under"], h,
          NewOb("ws", o, k, <<IF p.t = "server" THEN 1 ELSE 0, p.a[3]>>, <<>>))]
    [] p.o \in {"close", "hclose"} -> CloseOb(S2, o)
    [] p.o = "attach" ->
       [S2 EXCEPT !.ob = Put([S2.ob EXCEPT ![o].st = "under"], h,
          NewOb(p.t, o, k, p.a, IF p.d = <<>> THEN <<>> ELSE RBytes(p.d, 0, RLen(p.d))))]
    [] p.o = "detach" -> [S2 EXCEPT !.ob[o].st = "closed", !.ob[S.ob[o].u].st = "open"]
    [] OTHER -> S2

\* the call ends its object, or the one it was given
Fatal(p) == p.o \in Ends \cup {"attach", "wsattach"}

Fail(S, w, p, R) ==
  LET S1 == [S EXCEPT !.pd = Del(S.pd, w)] IN
  IF Fatal(p) THEN CloseOb(S1, p.s) ELSE Latch(S1, p, R)

OkCond(S, p, h, R) ==
  LET k == KOf(S, p)  o == p.s IN
  CASE p.o = "done" -> S.cn[k].sh = 1
    [] p.o = "close" -> Gone(S, o) /\ (k < 0 \/ S.cn[k].sh = 1)
    [] p.o = "hclose" -> Gone(S, o)
    [] p.o \in {"attach", "wsattach"} -> h \notin DOMAIN S.ob /\ S.cn[k].cl = 0
    [] p.o = "detach" -> h = S.ob[o].u /\ S.cn[k].cl = 0
    [] p.o = "sendfd" -> S.cn[k].sfd = <<p.a[1]>>
    [] OTHER -> TRUE

Res(r, x, d, S) == [r |-> r, x |-> x, d |-> d, S |-> S]

\* h: the new object, h2: the other end of a pair, or the port
\* the system chose; on failure the library keeps
\* nothing open
Refused == {"ENOMEM", "EMFILE", "ENFILE", "ENOBUFS"}
MakeResults(S, w, h, h2, inj) ==
  LET p == S.pd[w]
      S0 == [S EXCEPT !.pd = Del(S.pd, w)]
      S1(o, k) == [S0 EXCEPT !.ob = Put(S0.ob, o, NewOb(p.t, -1, k, <<>>, <<>>))]
      R == Run(S, p)
      gone == p.o # "connect" \/ p.k < 0 \/ S.cn[p.k].cl = 1
      F(e) == IF gone THEN {Res(-1, e, <<>>, S0)} ELSE {} IN
  UNION {F(e) : e \in p.im}
  \cup (IF p.im # {} THEN {} ELSE
    (IF R.st # "ok" \/ h \in DOMAIN S.ob THEN {}
     ELSE CASE p.o = "fromfd" ->
                 {Res(0, "0", <<>>, IF p.t \in {"tcpl", "ipcl"} THEN [S1(h, -1) EXCEPT !.ls = Put(S.ls, h, S.ls[p.k])]
                                    ELSE S1(h, p.k))}
            [] p.o = "connect" -> IF S.cn[p.k].cl = 0 THEN {Res(0, "0", <<>>, S1(h, p.k))} ELSE {}
            [] p.o = "accept" -> {Res(R.val, "0", <<>>,
                 [S1(h, R.x[2]) EXCEPT !.ls[p.s] = SubSeq(@, R.x[1] + 1, Len(@))])}
            [] p.o = "listen" -> {Res(v, "0", <<>>, [S1(h, -1) EXCEPT !.ls = Put(S.ls, h, <<>>)]) :
                 v \in IF p.a[3] = 0 THEN {h2} \cap 1..65535 ELSE {p.a[3]}}
            [] p.o = "pair" -> IF p.k < 0 \/ p.k2 < 0 THEN {} ELSE {Res(0, "0", <<>>,
                 [S0 EXCEPT !.ob = Put(Put(S0.ob, h, NewOb("ipc", -1, p.k, <<>>, <<>>)),
                                       h2, NewOb("ipc", -1, p.k2, <<>>, <<>>))])})
    \cup (IF R.st = "err" THEN
           (IF gone THEN {Res(-1, R.e, <<>>, IF p.o = "accept" THEN [S0 EXCEPT !.ls[p.s] = SubSeq(@, R.x[1] + 1, Len(@))] ELSE S0)}
            ELSE {}) ELSE {})
    \cup (IF p.o \in {"connect", "accept"} /\ ~p.sync /\ Late(S, p) THEN F("ETIMEDOUT") ELSE {})
    )
  \* (a coroutine that is cancelled makes no handles)
  \cup (IF w \in S.cc THEN F("ECANCELED") ELSE {})
  \cup (IF inj = 1 THEN UNION {F(e) : e \in Refused} ELSE {})

\* inj: an allocation or a system call was refused during the call
Results(S, w, h, h2, inj) ==
  IF S.pd[w].o \in Makes THEN MakeResults(S, w, h, h2, inj) ELSE
  LET p == S.pd[w]
      k == KOf(S, p)
      S0 == [S EXCEPT !.pd = Del(S.pd, w)]
      gone == ~Fatal(p) \/ Gone(S, p.s) IN
  \* errors known from the beginning have no effect, but for calls that end
  \* the object in any case
  {Res(-1, e, <<>>,
       LET o == S.ob[p.s]  in == p.o \in Recvs IN
       IF Fatal(p) /\ Needs(p.o, o.ty) THEN CloseOb(S0, p.s)
       ELSE IF e = "EMSGSIZE" /\ o.one = 0 THEN [S0 EXCEPT !.ob[p.s].one = 2]
       ELSE IF e \notin {"EPIPE", "ECONNRESET"} THEN S0
       ELSE IF in /\ o.ind = 0 THEN
            \* (if it comes from the layers below, this one may note it or not)
            IF o.ine = 2 THEN [S0 EXCEPT !.ob[p.s].ine = 1]
            ELSE IF o.ine = 0 THEN [S0 EXCEPT !.ob[p.s].ine = 2] ELSE S0
       ELSE IF ~in /\ o.ond = 0 THEN
            IF o.one = 2 THEN [S0 EXCEPT !.ob[p.s].one = 1]
            ELSE IF o.one = 0 THEN [S0 EXCEPT !.ob[p.s].one = 2] ELSE S0
       ELSE S0) :
      e \in {f \in p.im \cup p.may : ~Needs(p.o, S.ob[p.s].ty) \/ gone}}
  \cup (IF p.im # {} THEN {} ELSE
    LET R == Run(S, p)
        all == Sent(S, p, R)
        c == S.cn[k]
        F(e, rr) == IF gone THEN {Res(-1, e, <<>>, Fail(S, w, p, rr))} ELSE {}
        \* an error that comes from outside breaks the direction in use
        dir == [R EXCEPT !.lat = IF p.o \in S5Ops THEN "io2" ELSE IF ~all \/ p.o \in Sends \cup Dones THEN "out" ELSE "in", !.used = 0]
        wait == ~(p.o \in Sends \cup Dones /\ all) /\ p.o # "hclose" IN
    (IF all /\ R.st = "ok" /\ OkCond(S, p, h, R)
     THEN {Res(R.val, "0", R.d, After(S, w, p, h, R))} ELSE {})
    \cup (IF all /\ R.st = "err" THEN F(R.e, R) ELSE {})
    \cup UNION {F(e, [R EXCEPT !.lat = "in", !.used = 0]) : e \in IF all THEN R.may ELSE {}}
    \cup (IF ~all /\ c.tx # "" THEN F("ECONNRESET", dir) ELSE {})
    \cup (IF wait /\ ~p.sync /\ Late(S, p) THEN F("ETIMEDOUT", dir) ELSE {})
    \cup (IF wait /\ ~p.sync /\ p.o # "attach" /\ w \in S.cc THEN F("ECANCELED", dir) ELSE {})
    \cup (IF inj = 1 /\ p.o # "attach" THEN UNION {F(e, dir) : e \in Refused} ELSE {}))
  \cup (IF p.o \in {"attach", "wsattach"} /\ gone THEN
     {Res(-1, e, <<>>, CloseOb(S0, p.s)) : e \in (IF w \in S.cc THEN {"ECANCELED"} ELSE {})
                                              \cup (IF inj = 1 THEN Refused ELSE {})} ELSE {})

---------------------------------------------------------------------------
(* The environment, and what the library does to connections *)

Arrive(S, k, d, fds) ==
  LET n == RLen(S.cn[k].in) IN
  [S EXCEPT !.cn[k].in = RCat(@, d),
            !.cn[k].fds = @ \o [i \in 1..Len(fds) |-> <<n + fds[i][1], fds[i][2]>>]]
EndIn(S, k, x) == [S EXCEPT !.cn[k].end = x]
Window(S, k, n) == [S EXCEPT !.cn[k].win = n]
TxErr(S, k, x) == [S EXCEPT !.cn[k].tx = x]

\* calls in progress that have business on connection k
On(S, k) == {w \in DOMAIN S.pd : KOf(S, S.pd[w]) = k /\ S.pd[w].im = {}}

\* The library puts d on the wire: exactly what the call in progress has to
\* send next.
Wrote(S, k, d, f) ==
  {[S EXCEPT !.cn[k].sent = @ + RLen(d), !.cn[k].sfd = @ \o f,
             !.cn[k].win = IF @ < 0 THEN @ ELSE @ - RLen(d)] :
     w \in {v \in On(S, k) : S.pd[v].o \notin Recvs /\ S.cn[k].sh = 0 /\ S.cn[k].cl = 0 /\
            LET R == Run(S, S.pd[v]) IN RAt(R.out, S.cn[k].sent, d)}}
Shut(S, k) == {[S EXCEPT !.cn[k].sh = 1] :
     w \in {v \in On(S, k) : S.pd[v].o \in {"done", "close"} /\ S.cn[k].sh = 0 /\ S.cn[k].cl = 0}}
Closed(S, k, rst) ==
  LET C == [S EXCEPT !.cn[k].cl = 1, !.cn[k].rst = rst] IN
  {C : w \in {v \in DOMAIN S.pd : KOf(S, S.pd[v]) = k /\ S.cn[k].cl = 0 /\
            (Fatal(S.pd[v]) \/ S.pd[v].o \in {"fromfd", "connect", "pair"})}}
  \* taken from the queue, but the call fails for another reason
  \cup {[C EXCEPT !.ls[S.pd[w].s] = SubSeq(@, Head1(@) + 1, Len(@))] :
     w \in {v \in DOMAIN S.pd : LET p == S.pd[v] IN
        /\ p.o = "accept" /\ p.im = {}
        /\ Head1(S.ls[p.s]) # 0
        /\ LET x == S.ls[p.s][Head1(S.ls[p.s])] IN x[1] = "conn" /\ x[2] = k}}
\* New connections: made by the call in progress of worker w, or incoming (the
\* system's, w = -1). Listeners the test hands over have negative ids.
New(S, w, k, c) ==
  LET S1 == [S EXCEPT !.cn = Put(S.cn, k, c)] IN
  IF w < 0 THEN {S1}
  ELSE IF S.pd[w].k < 0 THEN {[S1 EXCEPT !.pd[w].k = k]}
  ELSE IF S.pd[w].k2 < 0 THEN {[S1 EXCEPT !.pd[w].k2 = k]} ELSE {}
Incoming(S, l, x) == [S EXCEPT !.ls = Put(S.ls, l, (IF l \in DOMAIN S.ls THEN S.ls[l] ELSE <<>>) \o x)]
Established(S, k, x) == [S EXCEPT !.cn[k].est = x]

\* The library goes to sleep for `to` ms (-1: until something happens).
MaySleep(S, to) ==
  \A w \in DOMAIN S.pd : LET p == S.pd[w] IN
    /\ ~CanGoOn(S, p)
    /\ w \notin S.cc
    /\ p.dl >= 0 => to >= 0 /\ S.clk + to <= Hi(p.dl, S.clk) + 1 /\ S.clk < p.dl
\* The poll is over: whoever has all that is needed, and still has time, must
\* not time out.
Polled(S) == [S EXCEPT !.pd = TLCEval([w \in DOMAIN S.pd |->
     IF ~S.pd[w].sync /\ ~Late(S, S.pd[w]) /\ w \notin S.cc /\ Sync(S, S.pd[w])
     THEN [S.pd[w] EXCEPT !.sync = TRUE] ELSE S.pd[w]])]
====
