---- MODULE Rope ----
(* Long byte strings as sequences of runs, so that a stream of many kilobytes
   is a handful of tuples:
     <<v, off, len>>        bytes off .. off+len-1 of pattern v  (v >= 0)
     <<-1, b1, .., bn>>     literal bytes
     <<-2, len>>            bytes that match nothing the driver knows
   Patterns with v >= 1000 are text: they consist of the letters a..z only. *)
EXTENDS Integers, Sequences, SequencesExt, TLC

PByte(v, off) ==
  IF v >= 1000 THEN 97 + ((v*7 + off*5 + (off \div 26)*3) % 26)
  ELSE (v*101 + off*(2*(v % 61) + 35) + (off \div 256)*59 + 13) % 256

RunLen(u) == IF u[1] >= 0 THEN u[3] ELSE IF u[1] = -1 THEN Len(u) - 1 ELSE u[2]
RLen(r) == FoldLeft(LAMBDA a, u : a + RunLen(u), 0, r)

RunDrop(u, n) == IF u[1] >= 0 THEN <<u[1], u[2] + n, u[3] - n>>
                 ELSE IF u[1] = -1 THEN <<-1>> \o SubSeq(u, n + 2, Len(u))
                 ELSE <<-2, u[2] - n>>
RunTake(u, n) == IF u[1] >= 0 THEN <<u[1], u[2], n>>
                 ELSE IF u[1] = -1 THEN SubSeq(u, 1, n + 1)
                 ELSE <<-2, n>>

RECURSIVE RDrop(_, _), RTake(_, _)
RDrop(r, n) == IF n = 0 \/ r = <<>> THEN r
               ELSE LET l == RunLen(Head(r)) IN
                    IF n >= l THEN RDrop(Tail(r), n - l)
                    ELSE <<RunDrop(Head(r), n)>> \o Tail(r)
RTake(r, n) == IF n = 0 \/ r = <<>> THEN <<>>
               ELSE LET l == RunLen(Head(r)) IN
                    IF n >= l THEN <<Head(r)>> \o RTake(Tail(r), n - l)
                    ELSE <<RunTake(Head(r), n)>>

RCat(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE LET x == a[Len(a)]  y == b[1]  f == SubSeq(a, 1, Len(a) - 1) IN
       IF x[1] >= 0 /\ x[1] = y[1] /\ x[2] + x[3] = y[2]
       THEN f \o <<<<x[1], x[2], x[3] + y[3]>>>> \o Tail(b)
       ELSE IF x[1] = -1 /\ y[1] = -1
       THEN f \o <<x \o Tail(y)>> \o Tail(b)
       ELSE a \o b
RCats(rs) == FoldLeft(LAMBDA a, u : RCat(a, u), <<>>, rs)
Lit(s) == IF s = <<>> THEN <<>> ELSE << <<-1>> \o s >>

RunByte(u, i) == IF u[1] >= 0 THEN PByte(u[1], u[2] + i)
                 ELSE IF u[1] = -1 THEN u[i + 2] ELSE -1
RECURSIVE RByte(_, _)
RByte(r, i) == LET l == RunLen(Head(r)) IN
               IF i < l THEN RunByte(Head(r), i) ELSE RByte(Tail(r), i - l)
RBytes(r, from, n) == [j \in 1..n |-> RByte(r, from + j - 1)]

\* The same bytes?
RECURSIVE REqN(_, _)
REqN(a, b) ==
  IF a = <<>> THEN b = <<>> ELSE IF b = <<>> THEN FALSE
  ELSE LET x == Head(a)  y == Head(b)
           lx == RunLen(x)  ly == RunLen(y)
           m == IF lx < ly THEN lx ELSE ly IN
       /\ \/ x[1] >= 0 /\ x[1] = y[1] /\ x[2] = y[2]
          \/ x[1] = -1 /\ y[1] = -1 /\ SubSeq(x, 2, m + 1) = SubSeq(y, 2, m + 1)
          \/ x[1] # -2 /\ y[1] # -2 /\ \A i \in 0..(m-1) : RunByte(x, i) = RunByte(y, i)
       /\ REqN(IF m = lx THEN Tail(a) ELSE <<RunDrop(x, m)>> \o Tail(a),
               IF m = ly THEN Tail(b) ELSE <<RunDrop(y, m)>> \o Tail(b))
Norm(r) == SelectSeq(r, LAMBDA u : RunLen(u) # 0)
REq(a, b) == REqN(Norm(a), Norm(b))

\* Is d what r has at position n?
RAt(r, n, d) == LET l == RLen(d) IN RLen(r) >= n + l /\ REq(RTake(RDrop(r, n), l), d)

\* Position of the first occurrence of the bytes s (a sequence) in r at or after
\* position `from` (of which `base` lies before r), or -1.
Match(r, i, s) == \A j \in 1..Len(s) : RByte(r, i + j - 1) = s[j]
IsLetter(b) == b >= 97 /\ b <= 122
RECURSIVE RFindIn(_, _, _, _, _)
RFindIn(r, rest, base, s, last) ==
  IF rest = <<>> \/ base > last THEN -1
  ELSE LET u == Head(rest)  l == RunLen(u)
           c == IF u[1] = -2 \/ (u[1] >= 1000 /\ ~IsLetter(s[1])) THEN {}
                ELSE {i \in 0..(l-1) : base + i <= last /\ RunByte(u, i) = s[1]
                                       /\ Match(r, base + i, s)} IN
       IF c # {} THEN base + (CHOOSE i \in c : \A j \in c : i <= j)
       ELSE RFindIn(r, Tail(rest), base + l, s, last)
RFind(r, s) == RFindIn(r, r, 0, s, RLen(r) - Len(s))
====
