---- MODULE Dns ----
(* Looking up names. A name is a sequence of labels, in lower case; an address the
   sequence of its octets. Which records there are, who is asked and in which
   order is what the configuration says; what is returned is what was answered. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Del(f, k) == TLCEval([x \in DOMAIN f \ {k} |-> f[x]])
Range(q) == {q[j] : j \in DOMAIN q}
Least(a, b) == IF a < b THEN a ELSE b

\* conf: <<>>, or one record: srv: addresses of servers; search: suffixes; nd:
\* dots of a name that is tried as it is first; tmo: how long an answer is waited
\* for (s); att: how often all servers are asked; look: where to look, in order:
\* "f": the file of hosts, "b": the servers; hosts: [a: address, n: name]
Init0(clk) == [clk |-> clk, conf |-> <<>>, pd |-> <<>>, cc |-> {}]

Type(f) == IF f = 4 THEN 1 ELSE 28
Width(f) == IF f = 4 THEN 4 ELSE 16
Families(mode) == CASE mode = 1 -> <<4>> [] mode = 2 -> <<6>> [] mode = 4 -> <<6, 4>> [] OTHER -> <<4, 6>>

\* The names asked for instead of n
Candidates(c, n) == LET with == [j \in DOMAIN c.search |-> n \o c.search[j]] IN
  IF Len(n) - 1 >= c.nd THEN <<n>> \o with ELSE Append(with, n)
RECURSIVE Hosts(_, _, _)
Hosts(h, n, f) == IF h = <<>> THEN <<>>
  ELSE (IF Head(h).n = n /\ Len(Head(h).a) = Width(f) THEN <<Head(h).a>> ELSE <<>>) \o Hosts(Tail(h), n, f)

\* Records an: [n, t, d]. Where the aliases of n lead to; <<>>: round in a circle
RECURSIVE Follow(_, _, _)
Follow(an, n, seen) ==
  LET to == {an[j].d : j \in {k \in DOMAIN an : an[k].n = n /\ an[k].t = 5}} IN
  IF to = {} THEN <<n>>
  ELSE LET m == CHOOSE x \in to : TRUE IN IF m \in seen THEN <<>> ELSE Follow(an, m, seen \cup {m})
RECURSIVE Of(_, _, _)
Of(an, n, t) == IF an = <<>> THEN <<>>
  ELSE (IF Head(an).n = n /\ Head(an).t = t THEN <<Head(an).d>> ELSE <<>>) \o Of(Tail(an), n, t)
(* A call: n: the name; fams: families to look up, the first is being looked up;
   na: space for so many addresses; one: whether one is looked for; odd: anything
   may come out of it; acc: what was found, [recs, some]: some of the addresses
   recs, or (some = 0) all there is space for.
   src: where to look, the first is where it looks; ph: "src": chooses the next
   source; "cand": is going to ask for the candidate ci; "wait": has asked,
   "tc": the answer was cut off, "conn": makes a connection to get all of it,
   "tcp": is connected; "fail": err happened; "done".
   err: the error not known to be noticed.
   q: the question: [n, srv, tcp]; at: when it was asked; reps: answers not read
   yet; asked: servers asked in this round; round: how many were finished;
   tsrv: the server the last connection was made to, tleft, terr: the answers and
   the error that came from there; told: all that was answered;
   got: what was answered about the current candidate and its aliases;
   lax: the specification is not sure what is asked. *)
NewCall(S, p) == [n |-> p.n, mode |-> p.mode, fams |-> Families(p.mode), na |-> p.na, one |-> p.one, port |-> p.port, dl |-> p.dl,
                  inj |-> p.inj, odd |-> p.odd, acc |-> <<>>,
                  src |-> IF S.conf = <<>> THEN <<>> ELSE S.conf[1].look, ph |-> IF S.conf = <<>> THEN "noconf" ELSE "src",
                  ci |-> 1, q |-> [n |-> <<>>, srv |-> <<>>, tcp |-> 0], at |-> 0, reps |-> <<>>, asked |-> {}, round |-> 0,
                  got |-> <<>>, lax |-> 0, err |-> "", tsrv |-> <<>>, tleft |-> <<>>, terr |-> "", told |-> <<>>]
Call(S, w, p) == [S EXCEPT !.pd = Put(S.pd, w, NewCall(S, p))]
Conf(S, c) == [S EXCEPT !.conf = <<c>>]

Taken(p) == LET lo(a) == IF a.some = 1 THEN 0 ELSE Cardinality(Range(a.recs)) IN
            IF p.acc = <<>> THEN 0 ELSE lo(p.acc[1])
Most(p) == IF p.acc = <<>> THEN 0 ELSE Len(p.acc[1].recs)

\* The first family is finished with the addresses recs
Found(S, p, recs, some) ==
  LET P0 == [p EXCEPT !.acc = Append(@, [recs |-> recs, some |-> IF p.inj = 1 THEN 1 ELSE some]), !.fams = Tail(@), !.reps = <<>>, !.lax = 0]
      Over == [P0 EXCEPT !.ph = "done"]
      More == [P0 EXCEPT !.ph = "src", !.src = S.conf[1].look] IN
  IF Len(p.fams) = 1 THEN {Over}
  ELSE (IF Taken(P0) < p.na THEN {More} ELSE {}) \cup (IF Most(P0) >= p.na THEN {Over} ELSE {})

Base(S, p) == Candidates(S.conf[1], p.n)[p.ci]
FileFirst(S, p) == \E j \in DOMAIN S.conf[1].look : S.conf[1].look[j] = "f" /\ Len(S.conf[1].look) - j + 1 > Len(p.src)
Lax(p) == {[p EXCEPT !.lax = 1, !.ph = "lax"]}

Late(S, p) == p.dl >= 0 /\ S.clk >= p.dl
Overdue(S, p) == S.clk - p.at >= (S.conf[1].tmo - 1) * 1000
NextSrc(p) == [p EXCEPT !.src = Tail(@), !.ph = "src", !.reps = <<>>, !.ci = 1]

\* All addresses it could know of
Told(S, p) == LET an == SelectSeq(p.told, LAMBDA r : r.t \in {1, 28})  h == S.conf[1].hosts IN
  [j \in DOMAIN an |-> an[j].d] \o [j \in DOMAIN h |-> h[j].a]
\* All names it could ask for
Known(S, p) == Range(Candidates(S.conf[1], p.n)) \cup {p.told[j].d : j \in {k \in DOMAIN p.told : p.told[k].t = 5}}
\* All the servers were asked often enough
GiveUp(S, p) ==
  IF (Overdue(S, p) \/ p.ph = "again") /\ p.asked = Range(S.conf[1].srv) /\ p.round + 1 >= S.conf[1].att
  THEN (IF p.q.n # Base(S, p) THEN Lax(p) ELSE {[NextSrc(p) EXCEPT !.err = ""]}) ELSE {}

\* An answer is read
Read(S, p0) ==
  LET r == Head(p0.reps)
      p == [p0 EXCEPT !.reps = Tail(@), !.err = ""]
      f == Head(p.fams)
      got == p.got \o r.an
      e == Follow(got, Base(S, p), {Base(S, p)})
      recs == IF e = <<>> THEN <<>> ELSE Of(got, e[1], Type(f))
      file == IF e = <<>> THEN <<>> ELSE Hosts(S.conf[1].hosts, e[1], f) IN
  IF r.tc = 1 THEN {[p EXCEPT !.ph = "tc"]}
  ELSE IF e = <<>> THEN Lax(p)
  ELSE IF recs # <<>> THEN Found(S, p, recs, 0)
  ELSE IF e[1] # Base(S, p) /\ e[1] = p.q.n THEN Lax(p)      \* an alias of nothing
  ELSE IF e[1] = p.q.n
  THEN {[p EXCEPT !.ci = @ + 1, !.ph = "cand"]} \cup (IF r.rc \notin {0, 3} THEN {[p EXCEPT !.ph = "again"]} ELSE {})
  ELSE IF file # <<>> /\ FileFirst(S, p) THEN Found(S, p, file, 0)
  ELSE {[p EXCEPT !.got = got, !.ph = "alias"]}

\* A step of the call that cannot be seen
Hidden(S, p) ==
  LET c == S.conf[1]  f == Head(p.fams)
      known == {j \in 1..(1 + Len(c.search)) : Hosts(c.hosts, Candidates(c, p.n)[j], f) # <<>>}
      first == CHOOSE j \in known : \A k \in known : j <= k IN
  CASE p.ph = "src" /\ p.src = <<>> -> Found(S, p, <<>>, 0)
    [] p.ph = "src" /\ p.src # <<>> /\ Head(p.src) = "f" ->
         IF known # {} THEN Found(S, p, Hosts(c.hosts, Candidates(c, p.n)[first], f), 0)
         ELSE {NextSrc(p)}
    [] p.ph = "src" /\ p.src # <<>> /\ Head(p.src) = "b" -> {[p EXCEPT !.ph = "cand", !.ci = 1, !.round = 0]}
    [] p.ph = "cand" /\ p.ci > 1 + Len(c.search) -> {NextSrc(p)}
    [] p.ph \in {"wait", "conn", "tcp", "tc"} ->
         (IF p.ph \in {"wait", "tcp"} /\ p.reps # <<>> THEN Read(S, p) ELSE {})
         \cup GiveUp(S, p)
    [] p.ph \in {"fail", "again"} -> GiveUp(S, p)
    [] p.ph = "notcp" -> Found(S, p, <<>>, 0) \cup Found(S, p, Hosts(c.hosts, p.n, f), 1) \cup {[p EXCEPT !.ph = "again"]} \cup GiveUp(S, p)
    [] p.ph = "lax" /\ p.reps # <<>> -> {[p EXCEPT !.reps = Tail(@)]}
    [] p.ph = "lax" /\ p.reps = <<>> ->
         Found(S, p, SelectSeq(Told(S, p), LAMBDA a : Len(a) = Width(f)), 1) \cup {[p EXCEPT !.err = ""]}
    [] OTHER -> {}
RECURSIVE Closure(_, _, _)
Closure(S, todo, done) ==
  IF todo \subseteq done THEN done
  ELSE Closure(S, UNION {Hidden(S, p) : p \in todo \ done}, done \cup todo)
All(S, w) == Closure(S, {S.pd[w]}, {})

Forget(p) == [p EXCEPT !.lax = 1, !.ph = "lax", !.reps = <<>>]

\* A question
Ask(S, w, q) ==
  LET c == S.conf[1]
      Asked(p, fresh) ==
        LET new == fresh \/ p.asked = Range(c.srv) IN
        [S EXCEPT !.pd[w] = [p EXCEPT
          !.q = [n |-> q.n, srv |-> q.srv, tcp |-> q.tcp], !.at = S.clk, !.ph = "wait",
          !.asked = IF new THEN {q.srv} ELSE @ \cup {q.srv},
          !.round = IF ~fresh /\ p.asked = Range(c.srv) THEN @ + 1 ELSE @,
          !.reps = IF q.n = p.q.n /\ p.ph \in {"wait", "again"} THEN @ ELSE <<>>]]
      \* another of the servers
      Other(p) == IF p.asked = Range(c.srv) THEN p.round + 1 < c.att ELSE q.srv \notin p.asked
      May(p) ==
        IF p.ph = "done" \/ q.ty # Type(Head(p.fams)) THEN {}
        ELSE CASE p.ph = "lax" -> IF q.n \notin Known(S, p) THEN {} ELSE {[S EXCEPT !.pd[w] = [p EXCEPT !.q = [n |-> q.n, srv |-> q.srv, tcp |-> q.tcp], !.at = S.clk]]}
          [] q.tcp = 1 /\ ((p.ph = "tcp" /\ p.q.tcp = 0) \/ (p.ph = "tc" /\ p.tsrv = q.srv)) ->
               IF q.n # p.q.n \/ q.srv # p.q.srv THEN {}
               ELSE LET On(ph, reps, err) == [S EXCEPT !.pd[w] = [p EXCEPT !.q.tcp = 1, !.ph = ph, !.reps = reps, !.err = err]] IN
                 IF p.ph # "tc" THEN {On("tcp", <<>>, p.err)}
                 \* in a connection kept, there may be something that came too late
                 ELSE {On("tcp", SubSeq(p.tleft, k, Len(p.tleft)), p.err) : k \in 1..(Len(p.tleft) + 1)}
                      \cup {On("notcp", <<>>, p.err)} \cup (IF p.terr = "" THEN {} ELSE {On("fail", <<>>, p.terr)})
          [] q.tcp = 0 /\ p.ph = "cand" /\ p.ci <= 1 + Len(c.search) ->
               IF q.n = Base(S, p) THEN {Asked([p EXCEPT !.got = <<>>], TRUE)} ELSE {}
          [] q.tcp = 0 /\ p.ph = "alias" ->
               IF q.n = Follow(p.got, Base(S, p), {Base(S, p)})[1] THEN {Asked([p EXCEPT !.round = 0], TRUE)} ELSE {}
          [] q.tcp = 0 /\ p.ph \in {"wait", "conn", "tcp", "tc", "again", "fail"} ->
               IF /\ Overdue(S, p) \/ p.ph \in {"again", "fail"}
                  /\ q.n = p.q.n /\ Other(p) THEN {Asked(p, FALSE), Asked([p EXCEPT !.err = ""], FALSE)} ELSE {}
          [] OTHER -> {} IN
  IF w \notin DOMAIN S.pd \/ S.conf = <<>> THEN {}
  ELSE IF q.port # 53 \/ q.rd # 1 \/ q.srv \notin Range(c.srv) THEN {}
  ELSE IF S.pd[w].odd = 1 THEN (IF q.ty \in {1, 28} THEN {S} ELSE {})
  ELSE LET T == UNION {May(p) : p \in All(S, w)} IN
       \* without memory, what was read may be lost, or a family left out
       IF T = {} /\ S.pd[w].inj = 1
       THEN UNION {{[S EXCEPT !.pd[w] = [Forget(p) EXCEPT !.fams = SubSeq(@, j, Len(@)),
                                          !.q = [n |-> q.n, srv |-> q.srv, tcp |-> q.tcp], !.at = S.clk]] :
                      j \in {k \in DOMAIN p.fams : q.ty = Type(p.fams[k])}} : p \in All(S, w)}
       ELSE T

\* A connection to a server begins; est: "ok", "prog" or the error
Connect(S, w, d) ==
  IF w \notin DOMAIN S.pd \/ S.conf = <<>> THEN {}
  ELSE IF d.port # 53 \/ d.srv \notin Range(S.conf[1].srv) THEN {}
  ELSE IF S.pd[w].odd = 1 THEN {S}
  ELSE {[S EXCEPT !.pd[w] = [p EXCEPT !.q.tcp = 0, !.tsrv = d.srv, !.tleft = <<>>, !.terr = "", !.err = IF d.est \in {"ok", "prog"} THEN "" ELSE d.est,
            !.ph = IF p.ph = "lax" THEN "lax" ELSE CASE d.est = "ok" -> "tcp" [] d.est = "prog" -> "conn" [] OTHER -> "fail"]] :
          p \in {x \in All(S, w) : x.ph = "lax" \/ (x.ph = "tc" /\ x.q.srv = d.srv)}}
Outcome(S, w, x) == [S EXCEPT !.pd[w].ph = IF @ # "conn" THEN @ ELSE IF x = "ok" THEN "tcp" ELSE "fail",
                              !.pd[w].err = IF x = "ok" THEN @ ELSE x]
\* An answer comes: ok: 1: to the question; 0: not to it; 2: nobody knows
Answer(S, w, a) ==
  IF w \notin DOMAIN S.pd THEN S
  ELSE CASE a.ok = 2 -> [S EXCEPT !.pd[w].odd = 1]
    [] a.ok = 1 -> LET r == [rc |-> a.rc, tc |-> IF a.tcp = 1 THEN 0 ELSE a.tc, an |-> a.an] IN
         [S EXCEPT !.pd[w].reps = Append(@, r), !.pd[w].told = @ \o a.an \o a.ar,
                   !.pd[w].tleft = IF a.tcp = 1 THEN Append(@, r) ELSE @]
    [] a.ok = 0 /\ a.tcp = 1 /\ S.pd[w].ph = "tcp" -> [S EXCEPT !.pd[w].ph = "notcp"]
    [] OTHER -> S
\* An error comes, or (x = "EOF") the server closes the connection
Error(S, w, x, tcp) ==
  IF w \notin DOMAIN S.pd THEN S
  ELSE IF S.pd[w].ph = "lax" THEN [S EXCEPT !.pd[w].odd = 1]
  ELSE IF x = "EOF" THEN [S EXCEPT !.pd[w].ph = "notcp"]
  ELSE [S EXCEPT !.pd[w].ph = "fail", !.pd[w].err = x, !.pd[w].terr = IF tcp = 1 THEN x ELSE @]

Refused == {"ENOMEM", "EMFILE", "ENFILE", "ENOBUFS"}
\* May a be the addresses got, with space for na
Fits(a, got, na) ==
  /\ Range(a) \subseteq Range(got.recs)
  /\ Len(a) <= Least(na, Len(got.recs))
  /\ got.some = 1 \/ Len(a) >= Least(na, Cardinality(Range(got.recs)))
  /\ Len(got.recs) = Cardinality(Range(got.recs)) => Cardinality(Range(a)) = Len(a)
AllFit(p, a) ==
  IF p.acc = <<>> THEN a = <<>>
  ELSE \E k \in 0..Len(a) :
    /\ Fits(SubSeq(a, 1, k), p.acc[1], p.na)
    /\ IF Len(p.acc) = 1 THEN k = Len(a) ELSE Fits(SubSeq(a, k + 1, Len(a)), p.acc[2], p.na - k)

\* Does the call return this: r, x: -1 and an error; as: addresses with port
Returned(S, w, r, x, as) ==
  LET p0 == S.pd[w]
      Port(a) == SubSeq(a, Len(a) - 1, Len(a)) = <<p0.port \div 256, p0.port % 256>>
      Addr(a) == SubSeq(a, 1, Len(a) - 2)
      as0 == [j \in DOMAIN as |-> Addr(as[j].a)]
      Form == \A j \in DOMAIN as : Len(as[j].a) - 2 \in {4, 16} /\ Port(as[j].a) /\ as[j].sc = 0
      Count == IF p0.one = 1 THEN r = 0 /\ Len(as) = 1 ELSE r = Len(as) /\ r <= p0.na
      None == IF p0.one = 1 THEN r = -1 /\ x = "EADDRNOTAVAIL" ELSE r = 0 /\ x = "0"
      End == {[S EXCEPT !.pd = Del(S.pd, w)]} IN
  IF ~Form THEN {}
  ELSE IF /\ r = -1 /\ as = <<>>
          /\ \/ x = "ETIMEDOUT" /\ Late(S, p0)
             \/ x = "ECANCELED" /\ w \in S.cc
             \/ x = "ENOENT" /\ p0.ph = "noconf"
             \/ p0.odd = 1
             \/ p0.inj = 1 /\ x \in Refused \cup {"ENOENT"}
             \/ p0.err # "" /\ x = p0.err
  THEN End
  ELSE IF p0.ph = "noconf" THEN {}
  ELSE IF p0.odd = 1 THEN (IF Count \/ None THEN End ELSE {})
  ELSE IF \E p \in All(S, w) : p.ph = "done" /\ AllFit(p, as0) /\ (IF as = <<>> THEN None ELSE Count /\ x = "0")
  THEN End
  ELSE IF p0.inj = 1 /\ (None \/ Count) /\ Range(as0) \subseteq Range(Told(S, p0)) THEN End ELSE {}

\* The library rests: for `to` ms, or (-1) until something happens. Every call
\* waits for an answer.
MayRest(S, to) ==
  \A w \in DOMAIN S.pd : LET p == S.pd[w] IN
    /\ w \notin S.cc
    /\ p.dl >= 0 => S.clk < p.dl /\ to >= 0 /\ S.clk + to <= p.dl + 1
    /\ p.odd = 1 \/ p.lax = 1 \/ (p.ph = "wait" /\ p.reps = <<>> /\ p.err = "") \/ p.ph = "conn"
       \/ (p.ph = "tcp" /\ p.q.tcp = 1 /\ p.reps = <<>>)
====
