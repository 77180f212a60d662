---- MODULE EyesMC ----
(* Every behaviour of one call to connect by name, with at most K steps of the
   environment: the lookups are answered with 0 to 2 addresses in any order, the
   attempts succeed, fail or hang, time goes to the next due time or a bit past
   it, the call may have a deadline or be canceled. Model checking of Eyes, and
   the source of the scripts that are replayed in the real library.
   g: what is known from outside: at: the attempt or ret: the return that just
   happened; prev: when the attempt before it was; lt: the outcomes of attempts
   that end at once; n: number of attempts. *)
EXTENDS Eyes, SequencesExt

CONSTANTS K, OPS, DLS, WKS, EMIT

TS(x) == ToString(x)
VARIABLES s, h, g
vars == <<s, h, g>>

Letters == {"", "p", "pp", "f", "o", "fp", "po"}
NoLet == [f \in Fams |-> "?"]
Init == s = Init0(1000) /\ h = <<>> /\ g = [at |-> <<>>, ret |-> <<>>, prev |-> [w \in 1..WKS |-> -1], lt |-> [w \in 1..WKS |-> NoLet], n |-> 0]
Quiet == [g EXCEPT !.at = <<>>, !.ret = <<>>]

Emit(x) == IF EMIT THEN PrintT(<<"SCRIPT", x>>) ELSE TRUE
Room == Len(h) < K

\* What the library must do now
Due(w) == LET p == s.pd[w] IN
  \/ Late(s, p) \/ w \in s.cc
  \/ \E k \in Mine(s, w) : s.at[k].st = "ok"
  \/ p.ask # Fams
  \/ \E f \in Fams : Turn(s, p, f, FALSE)
  \/ AllFailed(s, w) /\ (p.until < 0 \/ s.clk >= p.until)
Rest == \A w \in DOMAIN s.pd : ~Due(w)

DoCall ==
  /\ Room /\ Rest
  /\ \E w \in {v \in 1..WKS : v \notin DOMAIN s.pd /\ v \notin s.cc /\ \A u \in 1..(v-1) : u \in DOMAIN s.pd \cup s.cc} : \E dl \in DLS :
       /\ s' = Call(s, w, [dl |-> IF dl >= 9999 THEN -1 ELSE s.clk + dl, inj |-> 0, bad |-> 0])
       /\ h' = Append(h, "C " \o TS(w) \o " he 0 " \o TS(IF dl >= 9999 THEN -1 ELSE dl))
       /\ g' = [Quiet EXCEPT !.lt[w] = NoLet, !.prev[w] = -1]
  /\ Emit(h')

Res(l, i) == IF i > Len(l) THEN "p" ELSE SubSeq(l, i, i)
Est(x) == CASE x = "o" -> "ok" [] x = "f" -> "ECONNREFUSED" [] OTHER -> "prog"
Lib ==
  /\ \E w \in DOMAIN s.pd : LET p == s.pd[w] IN
     \/ \E f \in Fams : s' \in Asked(s, w, f) /\ g' = Quiet
     \/ /\ p.ask = Fams
        /\ \E f \in Fams : LET i == p.nx[f]  k == g.n IN
           /\ \A j \in Mine(s, w) : s.at[j].st # "ok"
           /\ s' \in Attempt(s, w, k, f, i, Est(Res(g.lt[w][f], i + 1)))
           /\ g' = [g EXCEPT !.ret = <<>>, !.n = @ + 1, !.prev[w] = s.clk,
                         !.at = <<[f |-> f, i |-> i, ago |-> s.clk - g.prev[w], first |-> g.prev[w] = -1,
                                   ans |-> p.ans, nx |-> p.nx, new |-> p.new, since |-> s.clk - p.t0]>>]
     \/ \E k \in Mine(s, w) : s.at[k].cl = 0
           /\ \/ s.at[k].st \notin {"ok", "prog"}
              \/ Late(s, p) \/ w \in s.cc \/ \E j \in Mine(s, w) \ {k} : s.at[j].st = "ok" /\ s.at[j].cl = 0
           /\ s' \in Close(s, k) /\ g' = Quiet
     \/ /\ p.ask = Fams /\ (AllFailed(s, w) => p.until < 0 \/ s.clk >= p.until \/ Late(s, p) \/ w \in s.cc)
        /\ \E y \in Results(s, w) : s' = y.S /\ g' = [g EXCEPT !.at = <<>>, !.ret = <<[r |-> y.r, x |-> y.x, k |-> y.k, at |-> [k \in Mine(s, w) |-> s.at[k]],
                ans |-> p.ans, nx |-> p.nx, late |-> p.dl >= 0 /\ s.clk >= p.dl, cc |-> w \in s.cc]>>]
  /\ h' = h
UserClose == \E k \in DOMAIN s.at : s.at[k].kept = 1 /\ s.at[k].cl = 0 /\ s' \in Close(s, k) /\ h' = h /\ g' = Quiet

Dues == UNION {LET p == s.pd[w] IN {p.dl, p.until, p.t0 + HeadStart} : w \in DOMAIN s.pd}
Env ==
  /\ Room /\ Rest
  /\ \/ \E w \in DOMAIN s.pd, f \in Fams, l \in Letters :
           /\ "answer" \in OPS /\ s.pd[w].ans[f] < 0
           /\ s' = Answer(s, w, f, Len(l))
           /\ h' = Append(h, "@a " \o TS(w) \o " " \o TS(f) \o " " \o (IF l = "" THEN "-" ELSE l))
           /\ g' = [Quiet EXCEPT !.lt[w][f] = l]
     \/ \E k \in {j \in DOMAIN s.at : s.at[j].st = "prog" /\ s.at[j].cl = 0 /\ s.at[j].kept = 0}, x \in {0, 1} :
           /\ "outcome" \in OPS
           /\ s' = Outcome(s, k, IF x = 0 THEN "ok" ELSE "ECONNREFUSED")
           /\ h' = Append(h, "@c " \o TS(k) \o " " \o TS(x)) /\ g' = Quiet
     \/ LET D == {t \in Dues : t > s.clk} IN
        /\ D # {}
        /\ LET m == (CHOOSE t \in D : \A u \in D : t <= u) - s.clk IN \E d \in {m} \cup (IF "late" \in OPS THEN {m + 2} ELSE {}) \cup (IF "part" \in OPS /\ m > 20 THEN {m - 7} ELSE {}) :
           /\ s' = Rested([s EXCEPT !.clk = @ + d]) /\ h' = Append(h, "@t " \o TS(d)) /\ g' = Quiet
     \/ /\ "cancel" \in OPS
        /\ \E w \in DOMAIN s.pd : s' = [s EXCEPT !.cc = @ \cup {w}] /\ h' = Append(h, "X " \o TS(w)) /\ g' = Quiet
  /\ Emit(h')

Next == DoCall \/ Lib \/ UserClose \/ Env
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* E01 on the specification *)
At(Q(_)) == \A m \in 1..Len(g.at) : Q(g.at[m])
\* Attempts of a call are at least 300 ms apart; each address is tried once, in
\* the order given.
Spaced == At(LAMBDA a : (a.first \/ a.ago >= 300) /\ a.i = a.nx[a.f] /\ a.i < a.ans[a.f])
\* The first attempt is at an IPv6 address, unless there is none or the answer
\* takes more than 50 ms.
V6First == At(LAMBDA a : (a.f = 4 /\ a.first) => a.ans[6] = 0 \/ (a.since >= 50 /\ (a.ans[6] < 0 \/ 6 \in a.new)))
\* IPv4 gets its turn after the first IPv6 attempt.
Turns == At(LAMBDA a : (a.f = 6 /\ a.nx[6] > 0 /\ a.nx[4] = 0) => a.ans[4] <= 0 \/ 4 \in a.new)
Returns == \A n \in 1..Len(g.ret) : LET e == g.ret[n] IN
  IF e.r = 0 THEN e.at[e.k].st = "ok" /\ e.at[e.k].cl = 0 /\ \A j \in DOMAIN e.at : j # e.k => e.at[j].cl = 1
  ELSE /\ \A j \in DOMAIN e.at : e.at[j].cl = 1
       /\ e.x = "ECANCELED" => e.cc
       /\ e.x = "ETIMEDOUT" => e.late
       /\ e.x \notin {"ECANCELED", "ETIMEDOUT"} =>
            /\ \A f \in Fams : e.ans[f] = e.nx[f]
            /\ \A j \in DOMAIN e.at : e.at[j].st \notin {"ok", "prog"}
            /\ IF DOMAIN e.at = {} THEN e.x = "EADDRNOTAVAIL" ELSE e.x \in {e.at[j].st : j \in DOMAIN e.at}
\* It is always clear what to do: at rest nothing is due (MayRest agrees), and
\* otherwise something can be done.
Agree == \A w \in DOMAIN s.pd : ~Due(w) =>
  LET T == [s EXCEPT !.pd = Put(<<>>, w, s.pd[w])] IN
  \E to \in {-1} \cup {t - s.clk : t \in {u \in Dues : u > s.clk}} : MayRest(T, to)
NoStuck == Rest \/ ENABLED Lib
Leaks == \A k \in DOMAIN s.at : s.at[k].cl = 1 \/ s.at[k].kept = 1 \/ s.at[k].c \in DOMAIN s.pd
Inv == Spaced /\ V6First /\ Turns /\ Returns /\ Agree /\ NoStuck /\ Leaks

Rl(t) == IF t < 0 THEN -1 ELSE IF t <= s.clk THEN 0 ELSE t - s.clk
RelP(p) == [p EXCEPT !.dl = Rl(@), !.until = Rl(@), !.t0 = Hi(@ - s.clk, -HeadStart)]
View == <<[s EXCEPT !.clk = 0, !.pd = [w \in DOMAIN s.pd |-> RelP(s.pd[w])]],
          [g EXCEPT !.prev = [w \in DOMAIN g.prev |-> IF g.prev[w] < 0 THEN -1 ELSE IF g.prev[w] + 400 < s.clk THEN 999 ELSE s.clk - g.prev[w]]], Len(h)>>
====
