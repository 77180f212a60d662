---- MODULE DnsMC ----
(* Every behaviour of a few lookups, with at most K steps of the environment:
   questions are answered with addresses, nothing, no such name, a failure,
   aliases with and without addresses, circles of aliases, an answer cut off or
   one to another question; connections are made or refused, closed; time passes;
   the call is canceled. Model checking of Dns, and the source of the scripts
   that are replayed in the real library.
   g: q: the question not answered yet, if any; ch: the names asked for; tst: a
   connection is being made; n: number of addresses made up; told: the records of
   the answers, to which question; ret: the return that just happened. *)
EXTENDS Dns, SequencesExt

CONSTANTS K, OPS, DLS, WKS, CFS, MODES, EMIT

TS(x) == ToString(x)
VARIABLES s, h, g
vars == <<s, h, g>>

W == 1..WKS
Name == <<"gamma">>
Cf(x) ==     \* x \div 10: where to look; x % 10: names of suffixes, servers
  LET win == x \div 10   frag == x % 10  look == win % 4 IN
  [srv |-> [j \in 1..(1 + ((frag \div 3) % 3)) |-> <<10, 0, j - 1, 1>>],
   search |-> CASE frag % 3 = 0 -> <<<<>>>> [] frag % 3 = 1 -> <<<<"one", "test">>>> [] OTHER -> <<<<"one", "test">>, <<"two", "test">>>>,
   nd |-> 1, tmo |-> 5, att |-> 2,
   look |-> CASE look = 1 -> <<"f", "b">> [] look = 3 -> <<"f">> [] OTHER -> <<"b", "f">>,
   hosts |-> IF win >= 4 THEN <<[a |-> <<9, 9, 9, 9>>, n |-> Name]>> ELSE <<>>]
None == <<>>
G0 == [q |-> [w \in W |-> None], ch |-> [w \in W |-> <<>>], tst |-> [w \in W |-> 0], n |-> 0,
       told |-> [w \in W |-> <<>>], tried |-> [w \in W |-> 0], ret |-> <<>>, asked |-> <<>>]
Init == \E x \in CFS : s = Conf(Init0(1000), Cf(x)) /\ h = <<"N " \o TS(x \div 10) \o " " \o TS(x % 10)>> /\ g = G0
Quiet == [g EXCEPT !.ret = <<>>, !.asked = <<>>]

Emit(x) == IF EMIT THEN PrintT(<<"SCRIPT", x>>) ELSE TRUE
Room == Len(h) <= K
Alone(w) == [s EXCEPT !.pd = Put(<<>>, w, s.pd[w])]
RestOf(w) == \E to \in {-1} \cup (IF s.pd[w].dl > s.clk THEN {s.pd[w].dl - s.clk} ELSE {}) : MayRest(Alone(w), to)
Rest == \A w \in DOMAIN s.pd : RestOf(w)

DoCall ==
  /\ Room /\ Rest
  /\ \E w \in {v \in W : v \notin DOMAIN s.pd /\ v \notin s.cc /\ \A u \in 1..(v-1) : u \in DOMAIN s.pd \cup s.cc}, dl \in DLS, mode \in MODES, na \in {0} \cup (IF "many" \in OPS THEN {2} ELSE {}) :
       /\ s' = Call(s, w, [n |-> Name, mode |-> mode, na |-> IF na = 0 THEN 1 ELSE na, one |-> IF na = 0 THEN 1 ELSE 0, port |-> 7,
                           dl |-> IF dl >= 9999999 THEN -1 ELSE s.clk + dl, inj |-> 0, odd |-> 0])
       /\ h' = Append(h, "C " \o TS(w) \o " dns 0 " \o TS(IF dl >= 9999999 THEN -1 ELSE dl) \o " gamma " \o TS(mode) \o " " \o TS(na))
       /\ g' = [Quiet EXCEPT !.q[w] = None, !.ch[w] = <<>>, !.tst[w] = 0, !.told[w] = <<>>, !.tried[w] = 0]
  /\ Emit(h')

\* Names that aliases lead to
Alias == <<<<"c1", "x">>, <<"c2">>, <<"c3", "z", "one", "test">>>>
Fresh(w) == LET f == SelectSeq(Alias, LAMBDA a : a \notin Range(g.ch[w])) IN IF f = <<>> THEN <<>> ELSE f[1]
Names(w) == Range(Candidates(s.conf[1], Name)) \cup Range(Alias)
Wire(a) == a \o <<0, 7>>
\* One of the returns with addresses that the specification allows
Pick(p) == LET fst == IF p.acc = <<>> THEN <<>> ELSE SubSeq(p.acc[1].recs, 1, Least(p.na, Len(p.acc[1].recs)))
               snd == IF Len(p.acc) < 2 THEN <<>> ELSE SubSeq(p.acc[2].recs, 1, Least(p.na - Len(fst), Len(p.acc[2].recs))) IN
           [j \in DOMAIN (fst \o snd) |-> [a |-> Wire((fst \o snd)[j]), sc |-> 0]]
Lib ==
  /\ \E w \in DOMAIN s.pd : LET p == s.pd[w] IN
     \/ \E q \in {[n |-> n, srv |-> v, port |-> 53, ty |-> t, rd |-> 1, tcp |-> tcp] : n \in Names(w), v \in Range(s.conf[1].srv), t \in {1, 28}, tcp \in {0, 1}} :
           /\ g.tst[w] = 0
           /\ s' \in Ask(s, w, q)
           /\ s'.pd[w].ph = "lax" => g.q[w] = None /\ q.n \notin Range(g.ch[w]) /\ Len(g.ch[w]) < 4      \* any number of times, that is
           /\ g' = [Quiet EXCEPT !.q[w] = <<q>>, !.ch[w] = Append(@, q.n), !.asked = <<[q |-> q, w |-> w]>>, !.tried[w] = 1]
     \/ \E v \in Range(s.conf[1].srv) :
           /\ g.tst[w] = 0
           /\ s' \in Connect(s, w, [port |-> 53, srv |-> v, est |-> "prog"])
           /\ g' = [Quiet EXCEPT !.q[w] = None, !.tst[w] = 1]
     \/ \E o \in {[r |-> -1, x |-> x, as |-> <<>>] : x \in {"ETIMEDOUT", "ECANCELED", "ENOENT", "ECONNREFUSED"}}
              \cup {IF p.one = 1 THEN [r |-> -1, x |-> "EADDRNOTAVAIL", as |-> <<>>] ELSE [r |-> 0, x |-> "0", as |-> <<>>]}
              \cup {[r |-> IF p.one = 1 THEN 0 ELSE Len(Pick(z)), x |-> "0", as |-> Pick(z)] : z \in {y \in All(s, w) : y.ph = "done" /\ Pick(y) # <<>>}} :
           /\ s' \in Returned(s, w, o.r, o.x, o.as)
           /\ g' = [Quiet EXCEPT !.q[w] = None, !.tst[w] = 0,
                       !.ret = <<[o |-> o, p |-> p, w |-> w, late |-> p.dl >= 0 /\ s.clk >= p.dl, cc |-> w \in s.cc, told |-> g.told[w], tried |-> g.tried[w]]>>]
  /\ h' = h

Adr(ty, n) == IF ty = 1 THEN <<10, 9, 9, n>> ELSE [j \in 1..16 |-> IF j = 16 THEN n ELSE 8]
Recs(nm, ty, k, n) == [j \in 1..k |-> [n |-> nm, t |-> ty, d |-> Adr(ty, n + j)]]
Al(a, b) == [n |-> a, t |-> 5, d |-> b]
Answers(w) ==
  LET q == g.q[w][1]  f == Fresh(w)
      A(l, ok, rc, tc, an, k) == [l |-> l, ok |-> ok, rc |-> rc, tc |-> tc, an |-> an, ar |-> <<>>, tcp |-> q.tcp, k |-> k] IN
  {A("a1", 1, 0, 0, Recs(q.n, q.ty, 1, g.n), 1), A("n", 1, 0, 0, <<>>, 0), A("x", 1, 3, 0, <<>>, 0)}
  \cup (IF "many" \in OPS THEN {A("a3", 1, 0, 0, Recs(q.n, q.ty, 3, g.n), 3)} ELSE {})
  \cup (IF "fail" \in OPS THEN {A("s", 1, 2, 0, <<>>, 0), A("g", 0, 0, 0, <<>>, 0)} ELSE {})
  \cup (IF "alias" \in OPS THEN
         IF f = <<>> THEN {} ELSE {A("c1", 1, 0, 0, <<Al(q.n, f)>> \o Recs(f, q.ty, 1, g.n), 1), A("l", 1, 0, 0, <<Al(q.n, f)>>, 0), A("o", 1, 0, 0, <<Al(q.n, f), Al(f, q.n)>>, 0)} ELSE {})
  \cup (IF "tcp" \in OPS /\ q.tcp = 0 THEN {A("t", 1, 0, 1, <<>>, 0)} ELSE {})
Say(w, x) == "@n " \o TS(w) \o " " \o x
Env ==
  /\ Room /\ Rest
  /\ \/ \E w \in {v \in DOMAIN s.pd : g.q[v] # None /\ g.tst[v] = 0} : \E a \in Answers(w) :
           /\ s' = Answer(s, w, a)
           /\ h' = Append(h, Say(w, a.l))
           /\ g' = [Quiet EXCEPT !.q[w] = IF a.ok = 1 \/ a.tcp = 1 THEN None ELSE @, !.n = @ + a.k,
                       !.told[w] = IF a.ok = 1 /\ a.tc = 0 THEN Append(@, [n |-> g.q[w][1].n, ty |-> g.q[w][1].ty, an |-> a.an, l |-> a.l, soon |-> s.clk - s.pd[w].at < 4000]) ELSE @]
     \/ \E w \in {v \in DOMAIN s.pd : g.tst[v] = 1}, x \in {"ok", "ECONNREFUSED"} :
           /\ s' = Outcome(s, w, x) /\ h' = Append(h, Say(w, IF x = "ok" THEN "C" ELSE "R")) /\ g' = [Quiet EXCEPT !.tst[w] = 0]
     \/ \E w \in {v \in DOMAIN s.pd : g.q[v] # None /\ g.tst[v] = 0} :
           /\ "err" \in OPS
           /\ LET tcp == g.q[w][1].tcp IN
              /\ s' = Error(s, w, IF tcp = 1 THEN "EOF" ELSE "ECONNREFUSED", tcp)
              /\ h' = Append(h, Say(w, IF tcp = 1 THEN "E" ELSE "U")) /\ g' = [Quiet EXCEPT !.q[w] = None]
     \/ \E d \in {5100} \cup {s.pd[w].dl - s.clk : w \in {v \in DOMAIN s.pd : s.pd[v].dl > s.clk}} :
           /\ "time" \in OPS /\ s.pd # <<>>
           /\ \A w \in DOMAIN s.pd : s.pd[w].dl >= 0 => s.clk + d <= s.pd[w].dl
           /\ s' = [s EXCEPT !.clk = @ + d] /\ h' = Append(h, "@t " \o TS(d)) /\ g' = Quiet
     \/ /\ "cancel" \in OPS
        /\ \E w \in DOMAIN s.pd : s' = [s EXCEPT !.cc = @ \cup {w}] /\ h' = Append(h, "X " \o TS(w)) /\ g' = Quiet
  /\ Emit(h')

Next == DoCall \/ Lib \/ Env
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* N01 on the specification *)
At(q, Q(_)) == \A m \in 1..Len(q) : Q(q[m])
\* Asked for is the name with a suffix, or what it is an alias of
Asks == At(g.asked, LAMBDA e : LET q == e.q IN
  \/ q.n \in Range(Candidates(s.conf[1], Name))
  \/ \E j \in DOMAIN g.told[e.w] : \E i \in DOMAIN g.told[e.w][j].an : g.told[e.w][j].an[i].t = 5 /\ g.told[e.w][j].an[i].d = q.n)
Allowed(mode) == CASE mode = 1 -> {4} [] mode = 2 -> {16} [] OTHER -> {4, 16}
AllAns(t) == UNION {Range(t[j].an) : j \in DOMAIN t}
Returns == At(g.ret, LAMBDA e : LET as == [j \in DOMAIN e.o.as |-> SubSeq(e.o.as[j].a, 1, Len(e.o.as[j].a) - 2)] IN
  /\ e.o.x = "ETIMEDOUT" => e.late
  /\ e.o.x = "ECANCELED" => e.cc
  /\ Len(as) <= e.p.na /\ Cardinality(Range(as)) = Len(as)
  /\ \A j \in DOMAIN as :
       \/ \E r \in AllAns(e.told) : r.t = Type(IF Len(as[j]) = 4 THEN 4 ELSE 6) /\ r.d = as[j]
       \/ \E k \in DOMAIN s.conf[1].hosts : s.conf[1].hosts[k].a = as[j]
  \* all that come first are of the family preferred
  /\ \A j, k \in DOMAIN as : (j < k /\ Len(as[j]) # Len(as[k])) => Len(as[j]) = Width(Families(e.p.mode)[1])
  \* nothing is returned only if no question for the name was answered in time with addresses
  /\ (as = <<>> /\ e.o.x \in {"0", "EADDRNOTAVAIL"} /\ \A j \in DOMAIN e.told : e.told[j].l \notin {"o", "l"}) =>
       \A j \in DOMAIN e.told : e.told[j].l \notin {"a1", "a3", "c1"} \/ ~e.told[j].soon \/ e.told[j].n \notin Range(Candidates(s.conf[1], Name)))
Form == At(g.ret, LAMBDA e : \A j \in DOMAIN e.o.as : Len(e.o.as[j].a) - 2 \in {4, 16})
NoStuck == Rest \/ ENABLED Lib
Inv == Asks /\ Returns /\ Form /\ NoStuck

Rl(t) == IF t < 0 THEN -1 ELSE IF t <= s.clk THEN 0 ELSE t - s.clk
View == <<[s EXCEPT !.clk = 0, !.pd = [w \in DOMAIN s.pd |-> [s.pd[w] EXCEPT !.dl = Rl(@), !.at = IF s.clk - @ > 6000 THEN -6000 ELSE @ - s.clk]]], g, Len(h), h[1]>>
====
