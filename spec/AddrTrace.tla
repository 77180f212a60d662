---- MODULE AddrTrace ----
(* Checks recorded results of the address functions against Addr. All of them
   are functions of their arguments (and of the network interfaces). Addresses
   are written as the bytes of the host, then two of the port. *)
EXTENDS Addr, IOUtils, Json

T == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i
vars == <<i>>

\* Modes: 0, 1: IPv4, 2: IPv6, 3: IPv4 preferred, 4: IPv6 preferred
Modes == 0..4
Allowed(mode) == CASE mode = 1 -> {4} [] mode = 2 -> {6} [] OTHER -> {4, 6}
Preferred(mode) == IF mode \in {2, 4} THEN 6 ELSE 4
Fam(a) == IF Len(a) = 4 THEN 4 ELSE 6
Port(p) == <<p \div 256, p % 256>>
Zero(n) == [j \in 1..n |-> 0]
PortOk(p) == p >= 0 /\ p <= 65535

\* A result: r, x and the addresses with their scopes
Fail(x) == [r |-> -1, x |-> x, as |-> <<>>]
Got(r, a, p, sc) == [r |-> r, x |-> "0", as |-> <<[a |-> a \o Port(p), sc |-> sc]>>]

\* An interface has the addresses of those entries that bear its name
Local(e) ==
  IF ~PortOk(e.port) \/ e.mode \notin Modes THEN Fail("EINVAL")
  ELSE IF e.nul = 1 THEN Got(0, Zero(IF Preferred(e.mode) = 4 THEN 4 ELSE 16), e.port, 0)
  ELSE LET a == AddrParse(e.b) IN
  IF a # <<>> /\ Fam(a) \in Allowed(e.mode) THEN Got(0, a, e.port, 0)
  ELSE IF e.ifx # "" THEN Fail(e.ifx)
  ELSE LET mine(f) == SelectSeq(e.ifs, LAMBDA x : x.n = e.b /\ Fam(x.a) = f)
           p == Preferred(e.mode)
           fs == SelectSeq(<<p, 10 - p>>, LAMBDA f : f \in Allowed(e.mode) /\ mine(f) # <<>>) IN
       IF fs = <<>> THEN Fail("ENODEV") ELSE Got(0, mine(fs[1])[1].a, e.port, mine(fs[1])[1].sc)

\* (of literals)
Remote(e) ==
  IF e.nul = 1 \/ e.na <= 0 \/ ~PortOk(e.port) \/ e.mode \notin Modes THEN Fail("EINVAL")
  ELSE LET a == AddrParse(e.b) IN
  IF a # <<>> /\ Fam(a) \in Allowed(e.mode) THEN Got(IF e.one = 1 THEN 0 ELSE 1, a, e.port, 0)
  ELSE IF e.one = 1 THEN Fail("EADDRNOTAVAIL") ELSE [r |-> 0, x |-> "0", as |-> <<>>]

Host(a) == SubSeq(a, 1, Len(a) - 2)
Eq(e) == (IF e.ign = 1 THEN Host(e.a) = Host(e.c2) ELSE e.a = e.c2)
About(e) ==
  LET n == Len(e.a) IN
  /\ e.fam = Fam(Host(e.a)) /\ e.len = (IF n = 6 THEN 16 ELSE 28) /\ e.port = 256 * e.a[n - 1] + e.a[n]
  /\ e.txt = AddrText(Host(e.a))

Ok(e) ==
  CASE e.e \in {"B", "p", "q", "t", "k", "E"} -> TRUE
    [] e.e = "F" -> e.bad = 0 /\ e.f = 0 /\ e.n = 0 /\ e.oh = 0
    [] e.e = "r" ->
       (CASE e.o = "local" -> LET y == Local(e) IN e.r = y.r /\ e.x = y.x /\ e.as = y.as
          [] e.o = "remote" -> LET y == Remote(e) IN e.r = y.r /\ e.x = y.x /\ e.as = y.as
          [] e.o = "equal" -> (e.r # 0) = Eq(e)
          [] e.o = "about" -> About(e)
          [] e.o = "setport" -> e.a = Host(e.c2) \o Port(e.port)
          [] OTHER -> FALSE)
    [] OTHER -> FALSE

Init == i = 1 /\ TLCSet(1, 1)
Next == i <= Len(T) /\ Ok(T[i]) /\ i' = i + 1
        /\ (IF i' > TLCGet(1) THEN TLCSet(1, i') ELSE TRUE)
Spec == Init /\ [][Next]_vars
Post == PrintT(<<"REACHED", TLCGet(1), Len(T)>>)
====
