-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* The scheduler, bundles, channels, timers, handles and descriptor waits  *)
(* of libdill, as one state record and functions from a state and an event *)
(* to the set of possible next states.                                     *)
(*                                                                         *)
(* One event is one observable step of the real system: a call made by a   *)
(* coroutine, its return, the first step of a launched coroutine, its end, *)
(* the beginning and end of a close callback, the library asking the       *)
(* kernel for events and the kernel's answer, and steps of the environment *)
(* (time passes, a descriptor becomes ready).  Switching to the next       *)
(* coroutine is the only silent step.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoC == -1
FAR == 1000000000

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Range(q) == {q[i] : i \in DOMAIN q}

(* Result of a call: value, admissible errors ({} - not looked at), value  *)
(* received, objects that get handles now, TRUE if the result requires     *)
(* that the system has refused memory, other admissible values.            *)
Res(r, xs, v) == [r |-> r, xs |-> xs, v |-> v, new |-> <<>>, tp |-> FALSE, alt |-> {}]
Ok == Res(0, {}, -1)
Err(xs) == Res(-1, xs, -1)
NewH(r, objs) == [Res(r, {}, -1) EXCEPT !.new = objs]

IdleW == [chs |-> {}, fd |-> -1, dir |-> "", bun |-> -1]

(* st: "run", "ready" (waits for its turn), "wait" (in a blocking call),   *)
(* "closing" (waits for a coroutine it is closing).  can: it is being      *)
(* closed.  nb: it is inside a close.  clo: who is closing it.             *)
NewCr(b) == [st |-> "run", can |-> FALSE, nb |-> FALSE, bun |-> b, clo |-> NoC,
             stk |-> <<>>, res |-> Ok, w |-> IdleW]

Init0(be, clk) ==
  [be |-> be, clk |-> clk, lp |-> clk, ph |-> "run", run |-> 0, polled |-> FALSE,
   to |-> 0, exp |-> Ok, cr |-> (0 :> NewCr(-1)), rdy |-> <<>>, tm |-> <<>>,
   ch |-> <<>>, bn |-> <<>>, hd |-> <<>>, hf |-> <<>>, mk |-> 0,
   fdr |-> <<>>, fdw |-> <<>>, seen |-> 0, rep |-> 0, lastm |-> 0, lastn |-> 0,
   pk |-> 0, ph0 |-> 0, pkh |-> 0]

CanBlock(s, c) == ~s.cr[c].can /\ ~s.cr[c].nb

(***************************************************************************)
(* Waking up                                                               *)
(***************************************************************************)

(* c does not wait for anything any more. *)
Unhook(s, c) ==
  LET w == s.cr[c].w
      s1 == [s EXCEPT !.tm = SelectSeq(@, LAMBDA t : t.c # c)]
      s2 == IF w.chs = {} THEN s1 ELSE
            [s1 EXCEPT !.ch = [x \in DOMAIN @ |-> IF x \in w.chs
               THEN [@[x] EXCEPT !.in = SelectSeq(@, LAMBDA t : t.c # c),
                                 !.out = SelectSeq(@, LAMBDA t : t.c # c)]
               ELSE @[x]]]
      s3 == IF w.fd = -1 THEN s2 ELSE [s2 EXCEPT !.fdw[w.fd][w.dir] = NoC]
      s4 == IF w.bun = -1 THEN s3 ELSE [s3 EXCEPT !.bn[w.bun].ws = @ \ {c}]
  IN [s4 EXCEPT !.cr[c].w = IdleW]

Wake(s, c, res) ==
  LET u == Unhook(s, c)
  IN [u EXCEPT !.cr[c].st = "ready", !.cr[c].res = res]

RECURSIVE WakeAll(_, _, _)
WakeAll(s, cs, res) ==
  IF cs = {} THEN s
  ELSE LET c == CHOOSE x \in cs : TRUE IN WakeAll(Wake(s, c, res), cs \ {c}, res)

(* A batch of coroutines that became runnable at the same moment is a set  *)
(* of sequences: those of one sequence run in its order, different         *)
(* sequences in any order.                                                 *)
Queue(s, batch) == IF batch = {} THEN s ELSE [s EXCEPT !.rdy = Append(@, batch)]

WakeQ(s, c, res) == Queue(Wake(s, c, res), {<<c>>})

Block(s, c, w) ==
  [s EXCEPT !.cr[c].st = "wait", !.cr[c].w = w, !.ph = "sw", !.polled = FALSE]

Timer(s, c, d) ==
  IF d < 0 THEN s
  ELSE LET le == SelectSeq(s.tm, LAMBDA t : t.d <= d)
           gt == SelectSeq(s.tm, LAMBDA t : t.d > d)
       IN [s EXCEPT !.tm = le \o <<[d |-> d, c |-> c]>> \o gt]

Done(s, e) == [s EXCEPT !.ph = "ret", !.exp = e]
Push(s, c, f) == [s EXCEPT !.cr[c].stk = Append(@, f)]
Top(s, c) == s.cr[c].stk[Len(s.cr[c].stk)]

(* If the system refuses memory during the call it fails and changes       *)
(* nothing; it may have created and closed a handle of its own on the way. *)
Refused(s, E) == IF E.ij = 1 THEN {Done(s, [Err({"ENOMEM"}) EXCEPT !.tp = TRUE])} ELSE {}

(***************************************************************************)
(* Handles                                                                 *)
(***************************************************************************)
QErr(s, h, k) ==
  IF h \notin DOMAIN s.hd THEN {"EBADF"}
  ELSE IF s.hd[h].k # k THEN {"ENOTSUP"} ELSE {}

(* A number may be given to a new object if it is not open and, once       *)
(* closed, at least eight other handles have been created since.           *)
MayBind(s, h, o) ==
  /\ h >= 0
  /\ h \notin DOMAIN s.hd
  /\ (h \in DOMAIN s.hf => o.m - 1 - s.hf[h] >= 8)

Bind(s, h, o) ==
  LET s1 == [s EXCEPT !.hd = Put(@, h, [k |-> o.k, o |-> o.o]), !.hf = Del(@, h)]
  IN [s1 EXCEPT !.pkh = IF @ >= Cardinality(DOMAIN s1.hd) THEN @ ELSE Cardinality(DOMAIN s1.hd)]

FreeH(s, h) == [s EXCEPT !.hd = Del(@, h), !.hf = Put(@, h, s.mk)]

Create(s, n) == [s EXCEPT !.mk = @ + n]

(***************************************************************************)
(* Channels.  Half x of a channel: in - those receiving from it, out -     *)
(* those sending to it; the end that sends to half x owns Peer(x).         *)
(***************************************************************************)
Peer(x) == IF x % 2 = 0 THEN x + 1 ELSE x - 1
NewHalf == [in |-> <<>>, out |-> <<>>, done |-> FALSE, closed |-> FALSE]

ChRes(s, t, x, v) ==
  IF Top(s, t.c).o = "choose" THEN Res(t.ix, {x}, v)
  ELSE IF x = "0" THEN Res(0, {}, v) ELSE Res(-1, {x}, -1)

(* Ends the waits q with EPIPE; the order of waking is the order of        *)
(* arrival on each side.  A choose that waits on several of the clauses    *)
(* that end at once (all) may name any of them.                            *)
RECURSIVE EndWaits(_, _, _, _)
EndWaits(s, q, all, acc) ==
  IF q = <<>> THEN [s |-> s, woken |-> acc]
  ELSE LET t == Head(q) IN
       IF s.cr[t.c].st # "wait" THEN EndWaits(s, Tail(q), all, acc)
       ELSE LET r == ChRes(s, t, "EPIPE", -1)
                r1 == IF r.r < 0 THEN r
                      ELSE [r EXCEPT !.alt = {u.ix : u \in {y \in Range(all) : y.c = t.c}}]
            IN EndWaits(Wake(s, t.c, r1), Tail(q), all, Append(acc, t.c))

Waits(s, x) == s.ch[x].in \o s.ch[x].out

(* What clause (half to use, send?, size) can do now: the set of errors,   *)
(* {"match"}, or {} if it has to wait.                                     *)
Try(s, x, snd) ==
  IF s.ch[x].done THEN {"EPIPE"}
  ELSE IF (IF snd THEN s.ch[x].in # <<>> ELSE s.ch[x].out # <<>>) THEN {"match"} ELSE {}

(* Completes the pair with the first one waiting; the result for the       *)
(* caller is r on success.                                                 *)
Pair(s, x, snd, n, v, r, isch) ==
  LET t == IF snd THEN Head(s.ch[x].in) ELSE Head(s.ch[x].out) IN
  IF t.n # n
  THEN Done(WakeQ(s, t.c, ChRes(s, t, "EMSGSIZE", -1)),
            IF isch THEN Res(r, {"EMSGSIZE"}, -1) ELSE Err({"EMSGSIZE"}))
  ELSE Done(WakeQ(s, t.c, ChRes(s, t, "0", IF snd THEN v ELSE -1)),
            Res(r, IF isch THEN {"0"} ELSE {}, IF snd THEN -1 ELSE t.v))

AddClause(s, x, snd, c, ix, n, v) ==
  IF snd THEN [s EXCEPT !.ch[x].out = Append(@, [c |-> c, ix |-> ix, n |-> n, v |-> v])]
  ELSE [s EXCEPT !.ch[x].in = Append(@, [c |-> c, ix |-> ix, n |-> n, v |-> v])]

HalfFor(s, h, snd) == IF snd THEN Peer(s.hd[h].o) ELSE s.hd[h].o

ChanCall(s, c, E, snd) ==
  LET q == QErr(s, E.h, "c") IN
  IF ~CanBlock(s, c) THEN {Done(s, Err({"ECANCELED"} \cup q))}
  ELSE IF q # {} THEN {Done(s, Err(q))}
  ELSE LET x == HalfFor(s, E.h, snd)
           v == IF snd THEN E.v ELSE -1
           t == Try(s, x, snd)
       IN IF t = {"match"} THEN {Pair(s, x, snd, E.n, v, 0, FALSE)}
          ELSE IF t # {} THEN {Done(s, Err(t))}
          ELSE IF E.d = 0 THEN {Done(s, Err({"ETIMEDOUT"}))}
          ELSE LET s1 == AddClause(s, x, snd, c, 0, E.n, v)
                   s2 == Timer(s1, c, E.d)
               IN {Block(s2, c, [IdleW EXCEPT !.chs = {x}])}

(* choose: the first clause that is in error or can complete. *)
ClErr(s, k) ==
  LET q == QErr(s, k.h, "c")
      i == (IF k.p \notin {1, 2} THEN {"EINVAL"} ELSE {}) \cup
           (IF k.z = 1 /\ k.n > 0 THEN {"EINVAL"} ELSE {})
  IN IF q # {} \/ i # {} THEN q \cup i
     ELSE Try(s, HalfFor(s, k.h, k.p = 1), k.p = 1)

RECURSIVE FirstCl(_, _, _)
FirstCl(s, cl, i) ==
  IF i > Len(cl) THEN 0
  ELSE IF ClErr(s, cl[i]) # {} THEN i ELSE FirstCl(s, cl, i + 1)

RECURSIVE AddClauses(_, _, _, _)
AddClauses(s, c, cl, i) ==
  IF i > Len(cl) THEN s
  ELSE LET k == cl[i] snd == k.p = 1 IN
       AddClauses(AddClause(s, HalfFor(s, k.h, snd), snd, c, i - 1, k.n, k.v), c, cl, i + 1)

ChooseCall(s, c, E) ==
  IF ~CanBlock(s, c) THEN {Done(s, Err({"ECANCELED"}))}
  ELSE LET i == FirstCl(s, E.cl, 1) IN
  IF i > 0
  THEN LET k == E.cl[i] t == ClErr(s, k) IN
       IF t = {"match"}
       THEN {Pair(s, HalfFor(s, k.h, k.p = 1), k.p = 1, k.n, k.v, i - 1, TRUE)}
       ELSE {Done(s, Res(i - 1, t, -1))}
  ELSE IF E.d = 0 THEN {Done(s, Err({"ETIMEDOUT"}))}
  ELSE LET s1 == AddClauses(s, c, E.cl, 1)
           s2 == Timer(s1, c, E.d)
           xs == {HalfFor(s, E.cl[j].h, E.cl[j].p = 1) : j \in DOMAIN E.cl}
       IN {Block(s2, c, [IdleW EXCEPT !.chs = xs])}

ChdoneCall(s, c, E) ==
  LET q == QErr(s, E.h, "c") IN
  IF q # {} THEN {Done(s, Err(q))}
  ELSE LET x == Peer(s.hd[E.h].o) IN
  IF s.ch[x].done THEN {Done(s, Err({"EPIPE"}))}
  ELSE LET s1 == [s EXCEPT !.ch[x].done = TRUE]
           w == EndWaits(s1, Waits(s, x), Waits(s, x), <<>>)
       IN {Done(Queue(w.s, IF w.woken = <<>> THEN {} ELSE {w.woken}), Ok)}

(***************************************************************************)
(* Closing.  The top frame of the closing coroutine says what is closed    *)
(* (h, obj), whether blocking was disabled before (nb) and the result.     *)
(***************************************************************************)
CloseDone(s, c) ==
  LET f == Top(s, c)
      s1 == FreeH(s, f.h)
      s2 == IF f.obj.k = "b" THEN [s1 EXCEPT !.bn = Del(@, f.obj.o)] ELSE s1
  IN Done([s2 EXCEPT !.cr[c].nb = f.nb, !.cr[c].st = "run", !.run = c], f.fin)

(* Closing a bundle: cancel the first coroutine in it and wait for its     *)
(* end, until there is none.                                               *)
CloseLoop(s, c) ==
  LET b == Top(s, c).obj.o IN
  IF s.bn[b].crs = <<>> THEN CloseDone(s, c)
  ELSE LET x == Head(s.bn[b].crs)
           s1 == [s EXCEPT !.cr[x].can = TRUE, !.cr[x].clo = c]
           s2 == IF s.cr[x].st = "wait" THEN WakeQ(s1, x, Err({"ECANCELED"})) ELSE s1
       IN [s2 EXCEPT !.cr[c].st = "closing", !.ph = "sw", !.polled = FALSE]

(* The two halves end in either order: who waits on both is woken with     *)
(* those of the one that ends first.                                       *)
CloseHalf(s, c) ==
  LET x == Top(s, c).obj.o
      s1 == [s EXCEPT !.ch[x].closed = TRUE]
      all == Waits(s, x) \o Waits(s, Peer(x))
      End(y, z) == LET w1 == EndWaits(s1, Waits(s, y), all, <<>>)
                       w2 == EndWaits(w1.s, Waits(s, z), all, <<>>)
                       b == {q \in {w1.woken, w2.woken} : q # <<>>}
                       s3 == Queue(w2.s, b)
                   IN CloseDone([s3 EXCEPT !.ch = Del(Del(@, x), Peer(x))], c)
  IN IF ~s.ch[Peer(x)].closed THEN {CloseDone(s1, c)}
     ELSE {End(x, Peer(x))} \cup (IF all = <<>> THEN {} ELSE {End(Peer(x), x)})

StartClose(s, c, E, fin) ==
  LET obj == s.hd[E.h]
      f == [o |-> E.o, h |-> E.h, obj |-> obj, nb |-> s.cr[c].nb, fin |-> fin]
      s1 == [s EXCEPT !.cr[c].stk[Len(s.cr[c].stk)] = f, !.cr[c].nb = TRUE]
  IN CASE obj.k = "b" -> {CloseLoop(s1, c)}
       [] obj.k = "c" -> CloseHalf(s1, c)
       [] OTHER -> {[s1 EXCEPT !.ph = "cb"]}

HcloseCall(s, c, E) ==
  IF E.h \notin DOMAIN s.hd THEN {Done(s, Err({"EBADF"}))}
  ELSE StartClose(s, c, E, Ok)

HownCall(s, c, E) ==
  IF E.h \notin DOMAIN s.hd THEN {Done(s, Err({"EBADF"}))}
  ELSE IF ~CanBlock(s, c) THEN StartClose(s, c, E, Err({"ECANCELED"}))
  ELSE LET o == s.hd[E.h]
           s1 == FreeH(Create(s, 1), E.h)
       IN {Done(s1, NewH(0, <<[k |-> o.k, o |-> o.o, m |-> s1.mk]>>))}
          \cup IF E.ij = 1
               THEN StartClose(s, c, E, [Err({"ENOMEM"}) EXCEPT !.tp = TRUE]) ELSE {}

(***************************************************************************)
(* Launching and ending coroutines, bundles                                *)
(***************************************************************************)
Max(a, b) == IF a > b THEN a ELSE b

(* An upper bound of the stacks in use: a stack is given back only when    *)
(* the one who closes its coroutine gets its turn.                         *)
StacksIn(s) ==
  Cardinality(DOMAIN s.cr) - 1 + Cardinality({x \in DOMAIN s.cr :
     s.cr[x].stk # <<>> /\ Top(s, x).o \in {"hclose", "hown"}})

Launch(s, c, id, b, res) ==
  LET s1 == [s EXCEPT !.cr[c].st = "ready", !.cr[c].res = res]
      s2 == Queue(s1, {<<c>>})
  IN [s2 EXCEPT !.cr = Put(@, id, NewCr(b)), !.bn[b].crs = Append(@, id),
                !.run = id, !.ph = "start", !.pk = Max(@, StacksIn(s) + 1)]

NewBundle == [crs |-> <<>>, ws |-> {}]

GoCall(s, c, E) ==
  LET own == E.o = "go"
      q == IF own THEN {} ELSE QErr(s, E.h, "b")
      small == IF E.m = 2 THEN {"ENOMEM"} ELSE {}
  IN IF ~CanBlock(s, c) THEN {Done(s, Err({"ECANCELED"} \cup q))}
     ELSE IF q # {} \/ small # {}
     THEN {Done(IF own THEN Create(s, 1) ELSE s, Err(q \cup small))}
     ELSE LET s1 == IF own THEN [Create(s, 1) EXCEPT !.bn = Put(@, E.q, NewBundle)] ELSE s
              b == IF own THEN E.q ELSE s.hd[E.h].o
              res == IF own THEN NewH(0, <<[k |-> "b", o |-> E.q, m |-> s1.mk]>>) ELSE Ok
          IN {Launch(s1, c, E.n, b, res)} \cup Refused(IF own THEN Create(s, 1) ELSE s, E)

BundleCall(s, c, E) ==
  IF ~CanBlock(s, c) THEN {Done(s, Err({"ECANCELED"}))} \cup Refused(s, E)
  ELSE LET s1 == [Create(s, 1) EXCEPT !.bn = Put(@, E.q, NewBundle)]
       IN {Done(s1, NewH(0, <<[k |-> "b", o |-> E.q, m |-> s1.mk]>>))} \cup Refused(s, E)

ChmakeCall(s, c, E) ==
  IF ~CanBlock(s, c) THEN {Done(s, Err({"ECANCELED"}))} \cup Refused(s, E)
  ELSE LET s1 == Create(s, 2)
           s2 == [s1 EXCEPT !.ch = Put(Put(@, 2 * E.q, NewHalf), 2 * E.q + 1, NewHalf)]
       IN {Done(s2, NewH(0, <<[k |-> "c", o |-> 2 * E.q, m |-> s1.mk - 1],
                              [k |-> "c", o |-> 2 * E.q + 1, m |-> s1.mk]>>))}
          \cup Refused(Create(s, 1), E)

HmakeCall(s, c, E) ==
  LET bad == IF E.z = 1 THEN {"EINVAL"} ELSE {} IN
  IF ~CanBlock(s, c) THEN {Done(s, Err({"ECANCELED"} \cup bad))}
  ELSE IF bad # {} THEN {Done(s, Err(bad))}
  ELSE LET s1 == Create(s, 1)
       IN {Done(s1, NewH(0, <<[k |-> "x", o |-> E.q, m |-> s1.mk]>>))} \cup Refused(s, E)

BwaitCall(s, c, E) ==
  LET q == QErr(s, E.h, "b") IN
  IF ~CanBlock(s, c) THEN {Done(s, Err({"ECANCELED"} \cup q))}
  ELSE IF q # {} THEN {Done(s, Err(q))}
  ELSE LET b == s.hd[E.h].o IN
  IF s.bn[b].crs = <<>> THEN {Done(s, Ok)}
  ELSE LET s1 == [s EXCEPT !.bn[b].ws = @ \cup {c}]
       IN {Block(Timer(s1, c, E.d), c, [IdleW EXCEPT !.bun = b])}

EndStep(s, E) ==
  IF ~(s.ph = "run" /\ s.run = E.c /\ E.c # 0 /\ s.cr[E.c].stk = <<>>) THEN {}
  ELSE LET x == s.cr[E.c]
           s1 == [s EXCEPT !.bn[x.bun].crs = SelectSeq(@, LAMBDA y : y # E.c)]
           ws == IF s1.bn[x.bun].crs = <<>> THEN s1.bn[x.bun].ws ELSE {}
           s2 == WakeAll(s1, ws, Ok)
           s3 == IF x.clo = NoC THEN s2 ELSE [s2 EXCEPT !.cr[x.clo].st = "ready"]
           b == {<<w>> : w \in ws} \cup (IF x.clo = NoC THEN {} ELSE {<<x.clo>>})
           s4 == Queue(s3, b)
       IN {[s4 EXCEPT !.cr = Del(@, E.c), !.ph = "sw", !.polled = FALSE, !.run = NoC]}

(***************************************************************************)
(* Descriptors                                                             *)
(***************************************************************************)
NoW == [in |-> NoC, out |-> NoC]

FdCall(s, c, E, dir) ==
  IF ~CanBlock(s, c)
  THEN {Done(s, Err({"ECANCELED"} \cup (IF E.f \notin DOMAIN s.fdr THEN {"EBADF"} ELSE {})))}
  ELSE IF E.f \notin DOMAIN s.fdr THEN {Done(s, Err({"EBADF"}))}
  ELSE IF s.fdr[E.f].t = "file" /\ s.be = "epoll" THEN {Done(s, Err({"ENOTSUP"}))}
  ELSE IF s.fdw[E.f][dir] # NoC THEN {Done(s, Err({"EBUSY"}))}
  ELSE LET s1 == [s EXCEPT !.fdw[E.f][dir] = c]
       IN {Block(Timer(s1, c, E.d), c, [IdleW EXCEPT !.fd = E.f, !.dir = dir])}

FdcleanCall(s, c, E) ==
  IF E.f \notin DOMAIN s.fdr
  THEN {Done(s, Ok), Done(s, Err({"EBADF"}))}
  ELSE IF s.fdw[E.f] # NoW THEN {Done(s, Err({"EBUSY"}))}
  ELSE {Done(s, Ok)}

Ready(s, f, dir) ==
  LET r == s.fdr[f] IN
  r.t = "file" \/ r.x = 1 \/ (IF dir = "in" THEN r.i = 1 ELSE r.u = 1)

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
CallStep(s, E) ==
  IF ~(s.ph = "run" /\ s.run = E.c) THEN {}
  ELSE
  LET c == E.c
      p == Push(s, c, [o |-> E.o])
  IN CASE E.o \in {"go", "gob"} -> GoCall(p, c, E)
       [] E.o = "bundle" -> BundleCall(p, c, E)
       [] E.o = "bwait" -> BwaitCall(p, c, E)
       [] E.o = "yield" ->
            IF ~CanBlock(s, c) THEN {Done(p, Err({"ECANCELED"}))}
            ELSE {[Queue([p EXCEPT !.cr[c].st = "ready", !.cr[c].res = Ok], {<<c>>})
                     EXCEPT !.ph = "sw", !.polled = FALSE]}
       [] E.o = "msleep" ->
            IF ~CanBlock(s, c) THEN {Done(p, Err({"ECANCELED"}))}
            ELSE {Block(Timer(p, c, E.d), c, IdleW)}
       [] E.o = "now" -> {Done(p, Ok)}
       [] E.o = "chmake" -> ChmakeCall(p, c, E)
       [] E.o = "chsend" -> ChanCall(p, c, E, TRUE)
       [] E.o = "chrecv" -> ChanCall(p, c, E, FALSE)
       [] E.o = "choose" -> ChooseCall(p, c, E)
       [] E.o = "chdone" -> ChdoneCall(p, c, E)
       [] E.o = "fdin" -> FdCall(p, c, E, "in")
       [] E.o = "fdout" -> FdCall(p, c, E, "out")
       [] E.o = "fdclean" -> FdcleanCall(p, c, E)
       [] E.o = "hclose" -> HcloseCall(p, c, E)
       [] E.o = "hown" -> HownCall(p, c, E)
       [] E.o = "hmake" -> HmakeCall(p, c, E)
       [] E.o = "hq" ->
            LET q == IF E.ty = "n" THEN (IF E.h \in DOMAIN s.hd THEN {"ENOTSUP"} ELSE {"EBADF"})
                     ELSE QErr(s, E.h, E.ty)
            IN {Done(p, IF q # {} THEN Err(q)
                        ELSE Res(0, {}, IF E.ty = "x" THEN s.hd[E.h].o ELSE -1))}
       [] OTHER -> {}

(* A timeout's result, by the call that timed out. *)
TimedOut(s, c) ==
  IF Top(s, c).o = "msleep" THEN Ok ELSE Err({"ETIMEDOUT"})

(***************************************************************************)
(* Returns                                                                 *)
(***************************************************************************)
RetStep(s, E) ==
  LET e == s.exp c == E.c IN
  IF ~(s.ph = "ret" /\ s.run = c /\ Top(s, c).o = E.o /\ E.k = 0 /\ (e.tp => E.tp = 1))
  THEN {}
  ELSE
  LET s1 == [s EXCEPT !.ph = "run", !.cr[c].st = "run",
                      !.cr[c].stk = SubSeq(@, 1, Len(@) - 1)]
  IN IF E.o = "now"
     THEN IF E.r <= s.clk /\ E.r >= s.clk - 1 /\ E.r >= s.seen
          THEN {[s1 EXCEPT !.seen = E.r]} ELSE {}
     ELSE IF Len(e.new) = 1
     THEN IF MayBind(s, E.r, e.new[1]) THEN {Bind(s1, E.r, e.new[1])} ELSE {}
     ELSE IF Len(e.new) = 2
     THEN IF /\ E.r = 0 /\ E.h0 # E.h1
             /\ MayBind(s, E.h0, e.new[1]) /\ MayBind(s, E.h1, e.new[2])
          THEN {Bind(Bind(s1, E.h0, e.new[1]), E.h1, e.new[2])} ELSE {}
     ELSE IF (E.r = e.r \/ E.r \in e.alt) /\ (e.xs = {} \/ E.x \in e.xs) /\ E.v = e.v
     THEN {s1} ELSE {}

(***************************************************************************)
(* Switching                                                               *)
(***************************************************************************)
(* The first of sequence q in the foremost batch gets its turn. *)
ResumeOne(s, q) ==
  LET b == Head(s.rdy)
      d == Head(q)
      b1 == (b \ {q}) \cup (IF Len(q) > 1 THEN {Tail(q)} ELSE {})
      s1 == [s EXCEPT !.rdy = IF b1 = {} THEN Tail(@) ELSE <<b1>> \o Tail(@), !.run = d]
  IN IF Top(s, d).o \in {"hclose", "hown"}
     THEN CloseLoop(s1, d)
     ELSE [s1 EXCEPT !.ph = "ret", !.exp = s.cr[d].res, !.cr[d].st = "run"]

(* The next coroutine in line; before that the kernel has been asked for   *)
(* events if that was more than a second ago.                              *)
ResumeStep(s) ==
  IF ~(s.ph = "sw" /\ s.rdy # <<>> /\ (s.polled \/ s.clk <= s.lp + 1000)) THEN {}
  ELSE
  {ResumeOne(s, q) : q \in Head(s.rdy)}

(* The library asks for events: it must not sleep while something is       *)
(* runnable, nor past the earliest deadline.                               *)
PollStep(s, E) ==
  IF s.ph # "sw" THEN {}
  ELSE IF (IF s.rdy # <<>> THEN E.to = 0
           ELSE s.tm = <<>> \/ (E.to >= 0 /\ (E.to = 0 \/ E.to <= Head(s.tm).d - s.clk)))
  THEN {[s EXCEPT !.ph = "poll", !.to = E.to]} ELSE {}

Woken(s) ==
  {<<f, d>> \in (DOMAIN s.fdw) \X {"in", "out"} : s.fdw[f][d] # NoC /\ Ready(s, f, d)}

RECURSIVE WakeFds(_, _)
WakeFds(s, W) ==
  IF W = {} THEN s
  ELSE LET p == CHOOSE x \in W : TRUE
       IN WakeFds(Wake(s, s.fdw[p[1]][p[2]], Ok), W \ {p})

RECURSIVE Expire(_)
Expire(s) ==
  IF s.tm = <<>> \/ Head(s.tm).d > s.clk THEN s
  ELSE LET c == Head(s.tm).c IN Expire(WakeQ(s, c, TimedOut(s, c)))

PollRet(s, E) ==
  IF s.ph # "poll" THEN {}
  ELSE IF E.n = -1 THEN {[s EXCEPT !.ph = "sw"]}
  ELSE LET L == {<<E.l[j][1], E.l[j][2]>> : j \in DOMAIN E.l}
           W == IF E.tr = 0 THEN Woken(s)
                ELSE {p \in Woken(s) : \E q \in L : q[1] = p[1] /\
                        (IF p[2] = "in" THEN q[2] % 2 = 1 ELSE q[2] >= 2)}
           b == {<<s.fdw[p[1]][p[2]]>> : p \in W}
           s1 == Queue(WakeFds(s, W), b)
           s2 == Expire(s1)
       IN {[s2 EXCEPT !.ph = "sw", !.lp = s.clk, !.polled = TRUE]}

(***************************************************************************)
(* All events                                                              *)
(***************************************************************************)
EnvOk(s) == s.ph \in {"run", "poll"}

Step(s, E) ==
  CASE E.e = "c" -> CallStep(s, E)
    [] E.e = "r" -> RetStep(s, E)
    [] E.e = "s" -> IF s.ph = "start" /\ s.run = E.c THEN {[s EXCEPT !.ph = "run"]} ELSE {}
    [] E.e = "e" -> EndStep(s, E)
    [] E.e = "b" -> IF s.ph = "cb" /\ s.run = E.c /\ Top(s, E.c).obj = [k |-> "x", o |-> E.q]
                    THEN {[s EXCEPT !.ph = "run"]} ELSE {}
    [] E.e = "d" -> IF s.ph = "run" /\ s.run = E.c /\ s.cr[E.c].stk # <<>> /\
                       Top(s, E.c).o \in {"hclose", "hown"} /\
                       Top(s, E.c).obj = [k |-> "x", o |-> E.q]
                    THEN {CloseDone(s, E.c)} ELSE {}
    [] E.e = "p" -> PollStep(s, E)
    [] E.e = "q" -> PollRet(s, E)
    [] E.e = "t" -> IF EnvOk(s) THEN {[s EXCEPT !.clk = @ + E.d]} ELSE {}
    [] E.e = "v" -> IF EnvOk(s)
                    THEN {[s EXCEPT !.fdr[E.f] = [i |-> E.i, u |-> E.u, x |-> E.x, t |-> "ready"]]}
                    ELSE {}
    [] E.e = "o" -> {[s EXCEPT !.fdr = Put(@, E.f, [i |-> 0, u |-> 0, x |-> 0, t |-> E.t]),
                               !.fdw = Put(@, E.f, NoW)]}
    [] E.e = "x" -> {[s EXCEPT !.fdr = Del(@, E.f), !.fdw = Del(@, E.f)]}
    [] E.e = "S" -> IF s.ph = "poll" /\ Woken(s) = {} /\ s.rdy = <<>> /\
                       (s.tm = <<>> \/ Head(s.tm).d > s.clk)
                    THEN {[s EXCEPT !.ph = "dead"]} ELSE {}
    [] E.e = "F" -> IF /\ s.ph = "run" /\ s.run = 0 /\ DOMAIN s.cr = {0}
                       /\ s.cr[0].stk = <<>> /\ s.rdy = <<>>
                       /\ DOMAIN s.hd = {} /\ s.tm = <<>>
                       /\ E.bad = 0 /\ E.f = 0 /\ E.g = 0 /\ E.oh = 0
                       /\ E.st <= s.pk
                       /\ (s.rep >= 1 => E.n <= s.lastn /\ (s.pkh <= s.ph0 => E.m <= s.lastm))
                    THEN {[s EXCEPT !.ph = "fin", !.lastm = E.m, !.lastn = E.n, !.ph0 = s.pkh]} ELSE {}
    [] E.e = "T" -> IF s.ph = "fin" /\ E.m = 0 /\ E.n = 0 /\ E.f = 0
                    THEN {[s EXCEPT !.ph = "dead"]} ELSE {}
    [] E.e = "B" -> IF s.ph \in {"dead", "fin"}
                    THEN {IF E.rep = 0 THEN Init0(E.be, E.clk)
                          ELSE [Init0(E.be, E.clk) EXCEPT !.lp = s.lp, !.rep = E.rep,
                                  !.lastm = s.lastm, !.lastn = s.lastn, !.hf = s.hf,
                                  !.mk = s.mk, !.seen = s.seen, !.pk = s.pk,
                                  !.ph0 = s.ph0, !.pkh = s.pkh]}
                    ELSE {}
    [] OTHER -> {}

Silent(s) == ResumeStep(s)
=============================================================================
