------------------------------- MODULE CoreMC -------------------------------
(* Every program of at most K calls over a chosen alphabet, under every     *)
(* behaviour of the environment: model checking of Core, and the source of  *)
(* the scripts that are replayed in the real library (one per transition).  *)
EXTENDS Core, IOUtils

CONSTANTS K,          (* number of steps chosen by programs and environment *)
          OPS,        (* kinds of calls *)
          DLS,        (* deadlines, relative; 999 is infinite *)
          MAXCR,      (* coroutines launched *)
          MAXOB,      (* bundles, channels, handles made *)
          FDS,        (* descriptors *)
          BE,
          EMIT        (* print scripts *)

VARIABLES s, h, ncr, nob, rcv, snt
vars == <<s, h, ncr, nob, rcv, snt>>

CLK0 == 1000

InitS ==
  LET s0 == Init0(BE, CLK0)
  IN [s0 EXCEPT !.fdr = [f \in FDS |-> [i |-> 0, u |-> 0, x |-> 0, t |-> "ready"]],
                !.fdw = [f \in FDS |-> NoW]]

Init == s = InitS /\ h = <<>> /\ ncr = 1 /\ nob = 0 /\ rcv = {} /\ snt = {}

(* How scripts name a handle. *)
Nm(hh) == LET o == s.hd[hh] IN
  IF o.k = "c" THEN "c" \o ToString(o.o \div 2) \o "." \o ToString(o.o % 2)
  ELSE o.k \o ToString(o.o)
Handles(k) == {hh \in DOMAIN s.hd : s.hd[hh].k = k}
Dl(d) == IF d = 999 THEN -1 ELSE s.clk + d   (* 999 stands for infinite *)
Ds(d) == IF d = 999 THEN "-" ELSE ToString(d)

(* Being closed by somebody already, or contains the caller. *)
InClose(hh) == \E c \in DOMAIN s.cr : \E j \in DOMAIN s.cr[c].stk :
                 /\ s.cr[c].stk[j].o \in {"hclose", "hown"}
                 /\ "h" \in DOMAIN s.cr[c].stk[j] /\ s.cr[c].stk[j].h = hh
RECURSIVE Within(_, _)
Within(c, b) == IF c = NoC THEN FALSE
                ELSE IF s.cr[c].bun = b THEN TRUE ELSE Within(s.cr[c].clo, b)
MayClose(c, hh) == ~InClose(hh) /\ (s.hd[hh].k = "b" => ~Within(c, s.hd[hh].o))

V == 1 + Len(h)   (* a fresh message *)

(* The calls that coroutine c may make now: <<event, script line>>. *)
Calls(c) ==
  (IF "go" \in OPS /\ ncr <= MAXCR /\ nob < MAXOB
   THEN {<<[e |-> "c", c |-> c, o |-> "go", h |-> -1, n |-> ncr, q |-> nob, m |-> 0, ij |-> 0], "go">>} ELSE {})
  \cup (IF "gob" \in OPS /\ ncr <= MAXCR
   THEN {<<[e |-> "c", c |-> c, o |-> "gob", h |-> hh, n |-> ncr, q |-> -1, m |-> 0, ij |-> 0], "gob " \o Nm(hh)>>
         : hh \in Handles("b")} ELSE {})
  \cup (IF "bundle" \in OPS /\ nob < MAXOB
   THEN {<<[e |-> "c", c |-> c, o |-> "bundle", q |-> nob, ij |-> 0], "bundle">>} ELSE {})
  \cup (IF "chmake" \in OPS /\ nob < MAXOB
   THEN {<<[e |-> "c", c |-> c, o |-> "chmake", q |-> nob, ij |-> 0], "chmake">>} ELSE {})
  \cup (IF "hmake" \in OPS /\ nob < MAXOB
   THEN {<<[e |-> "c", c |-> c, o |-> "hmake", q |-> nob, z |-> 0, ij |-> 0], "hmake">>} ELSE {})
  \cup (IF "yield" \in OPS THEN {<<[e |-> "c", c |-> c, o |-> "yield"], "yield">>} ELSE {})
  \cup (IF "msleep" \in OPS
   THEN {<<[e |-> "c", c |-> c, o |-> "msleep", d |-> Dl(d)], "msleep " \o Ds(d)>> : d \in DLS} ELSE {})
  \cup (IF "bwait" \in OPS
   THEN {<<[e |-> "c", c |-> c, o |-> "bwait", h |-> x[1], d |-> Dl(x[2])],
           "bwait " \o Nm(x[1]) \o " " \o Ds(x[2])>> : x \in Handles("b") \X DLS} ELSE {})
  \cup (IF "chsend" \in OPS
   THEN {<<[e |-> "c", c |-> c, o |-> "chsend", h |-> x[1], n |-> 4, v |-> V, d |-> Dl(x[2])],
           "chsend " \o Nm(x[1]) \o " 4 " \o Ds(x[2])>> : x \in Handles("c") \X DLS} ELSE {})
  \cup (IF "chsend8" \in OPS
   THEN {<<[e |-> "c", c |-> c, o |-> "chsend", h |-> hh, n |-> 8, v |-> V, d |-> -1],
           "chsend " \o Nm(hh) \o " 8 -">> : hh \in Handles("c")} ELSE {})
  \cup (IF "chrecv" \in OPS
   THEN {<<[e |-> "c", c |-> c, o |-> "chrecv", h |-> x[1], n |-> 4, v |-> -1, d |-> Dl(x[2])],
           "chrecv " \o Nm(x[1]) \o " 4 " \o Ds(x[2])>> : x \in Handles("c") \X DLS} ELSE {})
  \cup (IF "choose" \in OPS
   THEN {<<[e |-> "c", c |-> c, o |-> "choose", d |-> Dl(x[5]),
            cl |-> <<[h |-> x[1], p |-> x[2], n |-> 4, v |-> IF x[2] = 1 THEN V ELSE -1, z |-> 0],
                     [h |-> x[3], p |-> x[4], n |-> 4, v |-> IF x[4] = 1 THEN V + 100 ELSE -1, z |-> 0]>>],
           "choose " \o Ds(x[5]) \o " " \o Nm(x[1]) \o " " \o ToString(x[2]) \o " 4 "
                     \o Nm(x[3]) \o " " \o ToString(x[4]) \o " 4">>
         : x \in Handles("c") \X {1, 2} \X Handles("c") \X {1, 2} \X DLS} ELSE {})
  \cup (IF "chdone" \in OPS
   THEN {<<[e |-> "c", c |-> c, o |-> "chdone", h |-> hh], "chdone " \o Nm(hh)>> : hh \in Handles("c")} ELSE {})
  \cup (IF "hclose" \in OPS
   THEN {<<[e |-> "c", c |-> c, o |-> "hclose", h |-> hh, ij |-> 0], "hclose " \o Nm(hh)>>
         : hh \in {y \in DOMAIN s.hd : MayClose(c, y)}} ELSE {})
  \cup (IF "hown" \in OPS
   THEN {<<[e |-> "c", c |-> c, o |-> "hown", h |-> hh, ij |-> 0], "hown " \o Nm(hh)>>
         : hh \in {y \in DOMAIN s.hd : MayClose(c, y)}} ELSE {})
  \cup (IF "fd" \in OPS
   THEN {<<[e |-> "c", c |-> c, o |-> x[2], f |-> x[1], d |-> Dl(x[3])],
           x[2] \o " " \o ToString(x[1]) \o " " \o Ds(x[3])>> : x \in FDS \X {"fdin", "fdout"} \X DLS} ELSE {})
  \cup (IF "fdclean" \in OPS
   THEN {<<[e |-> "c", c |-> c, o |-> "fdclean", f |-> f], "fdclean " \o ToString(f)>> : f \in FDS} ELSE {})

Emit(hh) == IF EMIT THEN PrintT(<<"SCRIPT", hh>>) ELSE TRUE

Bump(E) ==
  /\ ncr' = IF E.o \in {"go", "gob"} THEN ncr + 1 ELSE ncr
  /\ nob' = IF E.o \in {"go", "bundle", "chmake", "hmake"} THEN nob + 1 ELSE nob

Room == Len(h) < K
Same == UNCHANGED <<ncr, nob, rcv, snt>>

Call ==
  /\ s.ph = "run" /\ Room
  /\ \E x \in Calls(s.run) :
       /\ s' \in Step(s, x[1]) /\ h' = Append(h, x[2]) /\ Bump(x[1])
       /\ Emit(h')
  /\ UNCHANGED <<rcv, snt>>

(* The end of a coroutine, or of a close callback. *)
Fin ==
  /\ s.ph = "run" /\ Room
  /\ IF s.cr[s.run].stk = <<>>
     THEN s.run # 0 /\ s' \in Step(s, [e |-> "e", c |-> s.run])
     ELSE s' \in Step(s, [e |-> "d", c |-> s.run, q |-> Top(s, s.run).obj.o])
  /\ h' = Append(h, "end") /\ Same /\ Emit(h')

Start == s.ph = "start" /\ s' \in Step(s, [e |-> "s", c |-> s.run]) /\ h' = h /\ Same
Cb == s.ph = "cb" /\ s' \in Step(s, [e |-> "b", c |-> s.run, q |-> Top(s, s.run).obj.o]) /\ h' = h /\ Same

(* The message a pending or finished call transfers, for conservation. *)
Ret ==
  /\ s.ph = "ret"
  /\ LET e == s.exp c == s.run
         rs == {e.r} \cup e.alt
         xs == IF e.xs = {} THEN {"0"} ELSE e.xs
         nh == IF Len(e.new) = 1 THEN {s.mk} ELSE rs
     IN \E r \in nh, x \in xs :
          /\ s' \in Step(s, [e |-> "r", c |-> c, o |-> Top(s, c).o, r |-> r, x |-> x, v |-> e.v,
                             k |-> 0, tp |-> 0, h0 |-> s.mk - 1, h1 |-> s.mk])
          /\ rcv' = IF e.v >= 0 /\ Top(s, c).o \in {"chrecv", "choose"} THEN rcv \cup {<<e.v, c, Len(h)>>} ELSE rcv
  /\ h' = h /\ UNCHANGED <<ncr, nob, snt>>

Switch == s' \in Silent(s) /\ h' = h /\ Same

Poll ==
  /\ s.ph = "sw" /\ s.rdy = <<>>
  /\ LET to == IF s.tm = <<>> THEN -1 ELSE IF Head(s.tm).d <= s.clk THEN 0 ELSE Head(s.tm).d - s.clk
     IN s' \in Step(s, [e |-> "p", to |-> to])
  /\ h' = h /\ Same

Adv(t, d) == [t EXCEPT !.clk = @ + d]
SetFd(t, f, i, u) == [t EXCEPT !.fdr[f] = [i |-> i, u |-> u, x |-> 0, t |-> "ready"]]
Waited == {f \in FDS : s.fdw[f] # NoW}
Q(n) == [e |-> "q", n |-> n, tr |-> 0, l |-> <<>>]

Env ==
  /\ s.ph = "poll" /\ Room
  /\ \/ /\ s.tm # <<>>
        /\ LET d == Max(0, Head(s.tm).d - s.clk)
           IN \/ s' \in Step(Adv(s, d), Q(0)) /\ h' = h \o <<"@t " \o ToString(d), "@.">>
              \/ \E f \in Waited :
                   /\ s' \in Step(SetFd(Adv(s, d), f, 1, 1), Q(1))
                   /\ h' = h \o <<"@t " \o ToString(d), "@f " \o ToString(f) \o " 1 1 0", "@.">>
     \/ \E f \in Waited, io \in {<<1, 0>>, <<0, 1>>, <<1, 1>>} :
          /\ s' \in Step(SetFd(s, f, io[1], io[2]), Q(1))
          /\ h' = h \o <<"@f " \o ToString(f) \o " " \o ToString(io[1]) \o " " \o ToString(io[2]) \o " 0", "@.">>
     \/ /\ "eintr" \in OPS
        /\ s' \in Step(s, Q(-1)) /\ h' = Append(h, "@i")
  /\ Same /\ Emit(h')

(* Time passes while a coroutine computes. *)
Work ==
  /\ "work" \in OPS /\ s.ph = "run" /\ Room
  /\ s' \in Step(s, [e |-> "t", d |-> 3]) /\ h' = Append(h, "work 3") /\ Same /\ Emit(h')

Next == Call \/ Fin \/ Start \/ Cb \/ Ret \/ Switch \/ Poll \/ Env \/ Work
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* The properties, on the specification                                    *)
(***************************************************************************)
Crs == DOMAIN s.cr
InQ(c) == \E i \in DOMAIN s.rdy : \E q \in s.rdy[i] : c \in Range(q)
TimesQ(c) == Cardinality({<<i, q, j>> \in UNION {{<<i, q, j>> : j \in DOMAIN q} : <<i, q>> \in
                 UNION {{<<i, q>> : q \in s.rdy[i]} : i \in DOMAIN s.rdy}} : q[j] = c})

(* C01: exactly the runnable coroutines are queued, each once; one runs. *)
OnceQueued == \A c \in Crs : TimesQ(c) = (IF s.cr[c].st = "ready" THEN 1 ELSE 0)
OneRuns == \A c \in Crs : s.cr[c].st = "run" => (c = s.run \/ s.ph \in {"dead", "fin"})

(* C02: what is registered anywhere belongs to a coroutine blocked there. *)
NoResidue ==
  /\ \A i \in DOMAIN s.tm : s.cr[s.tm[i].c].st = "wait"
  /\ \A x \in DOMAIN s.ch : \A t \in Range(Waits(s, x)) :
       s.cr[t.c].st = "wait" /\ x \in s.cr[t.c].w.chs
  /\ \A b \in DOMAIN s.bn : \A c \in s.bn[b].ws : s.cr[c].st = "wait" /\ s.cr[c].w.bun = b
  /\ \A f \in DOMAIN s.fdw : \A d \in {"in", "out"} :
       s.fdw[f][d] # NoC => s.cr[s.fdw[f][d]].st = "wait" /\ s.cr[s.fdw[f][d]].w.fd = f

(* C03: timers in order; none that has expired is left once events were    *)
(* asked for.                                                              *)
Timers ==
  /\ \A i \in 1 .. Len(s.tm) - 1 : s.tm[i].d <= s.tm[i + 1].d
  /\ (s.ph = "sw" /\ s.polled /\ s.lp = s.clk) => (s.tm # <<>> => Head(s.tm).d > s.clk)

(* C04: no coroutine survives its bundle. *)
Contained == \A c \in Crs \ {0} : s.cr[c].bun \in DOMAIN s.bn /\ c \in Range(s.bn[s.cr[c].bun].crs)

(* C05: who is cancelled or inside a close never waits for anything but    *)
(* the end of a coroutine it closes.                                       *)
NeverBlocks == \A c \in Crs : (s.cr[c].can \/ s.cr[c].nb) => s.cr[c].st # "wait"

(* C06: nobody waits for an empty bundle. *)
BundleWait == \A b \in DOMAIN s.bn : s.bn[b].ws # {} => s.bn[b].crs # <<>>

(* C07: no two that could be a pair both wait, unless in one call. *)
Rendezvous == \A x \in DOMAIN s.ch : \A t \in Range(s.ch[x].in), u \in Range(s.ch[x].out) : t.c = u.c
(* C07, C09: no message is received twice. *)
NotTwice == \A a, b \in rcv : a[1] = b[1] => a = b

(* C08 *)
DoneEnds == \A x \in DOMAIN s.ch : s.ch[x].done => Waits(s, x) = <<>>
OneOpen == \A x \in DOMAIN s.ch : ~(s.ch[x].closed /\ s.ch[Peer(x)].closed)

(* C10: a handle denotes an object that exists. *)
HandlesLive == \A hh \in DOMAIN s.hd :
  LET o == s.hd[hh] IN CASE o.k = "b" -> o.o \in DOMAIN s.bn
                         [] o.k = "c" -> o.o \in DOMAIN s.ch
                         [] OTHER -> TRUE

(* Nothing ever gets stuck: there is always a next step, or everyone waits *)
(* for events without deadlines.                                           *)
Progress == (s.ph = "sw" /\ s.rdy = <<>>) =>
              \E c \in Crs : s.cr[c].st = "wait"

Inv == /\ OnceQueued /\ OneRuns /\ NoResidue /\ Timers /\ Contained /\ NeverBlocks
       /\ BundleWait /\ Rendezvous /\ NotTwice /\ DoneEnds /\ OneOpen /\ HandlesLive /\ Progress

(* C02, C05: a call ends for one cause: results are only given to those    *)
(* who were waiting.                                                       *)
WokenOnce == [][\A c \in DOMAIN s.cr : (c \in DOMAIN s'.cr /\ s.cr[c].st = "ready" /\ s'.cr[c].st = "ready")
                   => s'.cr[c].res = s.cr[c].res]_vars

(* States that differ only in absolute times are the same. *)
View == <<[s EXCEPT !.clk = 0, !.seen = 0, !.hf = <<>>, !.to = 0,
            !.lp = IF s.clk > s.lp + 1000 THEN 1 ELSE 0,
            !.tm = [i \in DOMAIN s.tm |-> [d |-> s.tm[i].d - s.clk, c |-> s.tm[i].c]]],
          ncr, nob>>
=============================================================================
