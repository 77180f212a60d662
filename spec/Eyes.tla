---- MODULE Eyes ----
(* Connecting by name ("happy eyeballs"). An address is its family (6 or 4) and
   its position in the answer. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Hi(a, b) == IF a > b THEN a ELSE b
Put(f, k, v) == TLCEval([x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]])
Del(f, k) == TLCEval([x \in DOMAIN f \ {k} |-> f[x]])

Init0(clk) == [clk |-> clk, pd |-> <<>>, at |-> <<>>, cc |-> {}]

Fams == {4, 6}
Other(f) == 10 - f
HeadStart == 50      \* how long IPv6 is waited for
Gap == 300           \* between attempts

(* A call in progress: dl, inj (resources may be refused), bad (the arguments are
   invalid), t0: when it began; ask: the families asked for; ans: how many
   addresses there are, -1 as long as it is not known; nx: how many have been
   tried; new: answers the call need not have noticed yet; pref: the family whose
   turn it is; until: no attempt earlier (-1: none was made); fin: it must end *)
NewCall(S, p) == [dl |-> p.dl, inj |-> p.inj, bad |-> p.bad, t0 |-> S.clk, ask |-> {},
                  ans |-> [f \in Fams |-> -1], nx |-> [f \in Fams |-> 0], new |-> {},
                  pref |-> 6, until |-> -1, fin |-> 0]
(* An attempt: c: whose it is; st: "prog", "ok" or the error; cl: closed;
   kept: it was returned *)
Mine(S, w) == {k \in DOMAIN S.at : S.at[k].c = w}

Call(S, w, p) == [S EXCEPT !.pd = Put(S.pd, w, NewCall(S, p))]

Avail(p, f) == p.ans[f] > p.nx[f]
Gone(p, f) == p.ans[f] >= 0 /\ ~Avail(p, f)          \* nothing left
Late(S, p) == p.dl >= 0 /\ S.clk >= p.dl

\* May the next attempt be at the first address left of family f?
\* unsure: answers that just came may count as not there
Turn(S, p, f, unsure) ==
  /\ Avail(p, f)
  /\ IF p.until < 0
     THEN \/ f = 6
          \/ Gone(p, 6)
          \/ S.clk >= p.t0 + HeadStart /\ (p.ans[6] < 0 \/ (unsure /\ 6 \in p.new))
     ELSE /\ S.clk >= p.until
          /\ f = p.pref \/ ~Avail(p, p.pref) \/ (unsure /\ p.pref \in p.new)

\* An attempt begins; est: "prog", "ok" or an error
Attempt(S, w, k, f, i, est) ==
  IF w \notin DOMAIN S.pd \/ k \in DOMAIN S.at THEN {}
  ELSE LET p == S.pd[w] IN
  IF /\ p.bad = 0 /\ p.fin = 0
     /\ IF p.inj = 1 THEN p.ans[f] > i /\ i >= p.nx[f]
        ELSE Turn(S, p, f, TRUE) /\ i = p.nx[f]
     /\ \A j \in Mine(S, w) : S.at[j].kept = 0
  THEN {[S EXCEPT !.at = Put(S.at, k, [c |-> w, st |-> est, cl |-> 0, kept |-> 0]),
                  !.pd[w].nx[f] = i + 1, !.pd[w].until = S.clk + Gap,
                  !.pd[w].pref = IF f = p.pref THEN Other(f) ELSE p.pref]}
  ELSE {}

Asked(S, w, f) == IF w \notin DOMAIN S.pd \/ f \in S.pd[w].ask \/ S.pd[w].bad = 1 THEN {}
                  ELSE {[S EXCEPT !.pd[w].ask = @ \cup {f}]}
Answer(S, w, f, n) == [S EXCEPT !.pd[w].ans[f] = n, !.pd[w].new = @ \cup {f}]
Outcome(S, k, x) == [S EXCEPT !.at[k].st = x]

\* A connection is closed: one that failed, or one of a call that ends; or the
\* user closes the one returned.
Close(S, k) ==
  IF k \notin DOMAIN S.at \/ S.at[k].cl = 1 THEN {}
  ELSE LET a == S.at[k]  T == [S EXCEPT !.at[k].cl = 1] IN
       IF a.kept = 1 \/ a.st \notin {"prog", "ok"} THEN {T}
       ELSE IF a.c \in DOMAIN S.pd THEN {[T EXCEPT !.pd[a.c].fin = 1]} ELSE {}

Failed(S, w) == {S.at[k].st : k \in Mine(S, w)} \ {"prog", "ok"}
AllFailed(S, w) == LET p == S.pd[w] IN
  /\ \A f \in Fams : Gone(p, f)
  /\ \A k \in Mine(S, w) : S.at[k].st \notin {"prog", "ok"}
Refused == {"ENOMEM", "EMFILE", "ENFILE", "ENOBUFS"}

\* Possible returns, [r, x, k, S]; k: the connection returned or -1. All others
\* are closed by then.
Results(S, w) ==
  LET p == S.pd[w]
      Rest(k) == \A j \in Mine(S, w) : j = k \/ S.at[j].cl = 1
      \* attempts of earlier calls are of no interest any more
      Out(k) == [S EXCEPT !.pd = Del(S.pd, w),
                          !.at = TLCEval([j \in {i \in DOMAIN S.at : S.at[i].c # w \/ i = k} |->
                                    IF j = k THEN [S.at[j] EXCEPT !.kept = 1, !.c = -1] ELSE S.at[j]])]
      F(e) == [r |-> -1, x |-> e, k |-> -1, S |-> Out(-1)] IN
  IF p.bad = 1 THEN {F("EINVAL")}
  ELSE {[r |-> 0, x |-> "0", k |-> k, S |-> Out(k)] : k \in {j \in Mine(S, w) : S.at[j].st = "ok" /\ S.at[j].cl = 0 /\ Rest(j)}}
       \cup (IF ~Rest(-1) THEN {} ELSE
         (IF Late(S, p) THEN {F("ETIMEDOUT")} ELSE {})
         \cup (IF w \in S.cc THEN {F("ECANCELED")} ELSE {})
         \cup (IF p.inj = 1 THEN {F(e) : e \in Refused \cup Failed(S, w) \cup {"EADDRNOTAVAIL"}} ELSE {})
         \cup (IF AllFailed(S, w) THEN {F(e) : e \in IF Failed(S, w) = {} THEN {"EADDRNOTAVAIL"} ELSE Failed(S, w)} ELSE {}))

\* The library rests: for `to` ms, or (-1) until something happens. Everything
\* that came earlier has been noticed.
MayRest(S, to) ==
  \A w \in DOMAIN S.pd : LET p == S.pd[w]
      By(t) == to >= 0 /\ S.clk + to <= Hi(t, S.clk) + 1 /\ S.clk < t IN
    /\ p.fin = 0 /\ p.bad = 0 /\ w \notin S.cc
    /\ \A k \in Mine(S, w) : S.at[k].st # "ok"
    /\ p.dl >= 0 => By(p.dl)
    /\ p.inj = 0 =>
       /\ p.ask = Fams
       /\ \A f \in Fams : ~Turn(S, p, f, FALSE)
       /\ p.until < 0 /\ p.ans[6] < 0 /\ S.clk < p.t0 + HeadStart => By(p.t0 + HeadStart)
       /\ p.until >= 0 /\ (\E f \in Fams : Avail(p, f)) => By(p.until)
       /\ AllFailed(S, w) => p.until >= 0 /\ By(p.until)
Rested(S) == [S EXCEPT !.pd = TLCEval([w \in DOMAIN S.pd |-> [S.pd[w] EXCEPT !.new = {}]])]
====
