---- MODULE Addr ----
(* IP addresses and their textual form. Addresses are sequences of 4 or 16
   bytes, texts sequences of characters. *)
EXTENDS Http

RECURSIVE Split(_, _)
Split(b, c) ==
  LET i == SelectInSeq(b, LAMBDA x : x = c) IN
  IF i = 0 THEN <<b>> ELSE <<SubSeq(b, 1, i - 1)>> \o Split(SubSeq(b, i + 1, Len(b)), c)

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN <<HexDigit(n)>> ELSE Hex(n \div 16) \o <<HexDigit(n % 16)>>

\* A canonical text for each address
V4Text(a) == Dec(a[1]) \o <<46>> \o Dec(a[2]) \o <<46>> \o Dec(a[3]) \o <<46>> \o Dec(a[4])

\* (longest run of at least two zero groups, the first of such)
V6Text(a) ==
  LET W(i) == 256 * a[2*i - 1] + a[2*i]
      Z(i, j) == \A k \in i..j : W(k) = 0
      runs == {<<i, j>> \in (1..8) \X (1..8) : i < j /\ Z(i, j)}
      best == IF runs = {} THEN <<0, -1>>
              ELSE CHOOSE r \in runs : \A q \in runs : q[2] - q[1] < r[2] - r[1] \/ (q[2] - q[1] = r[2] - r[1] /\ q[1] >= r[1])
      v4 == best \in {<<1, 6>>} \/ (best = <<1, 5>> /\ W(6) = 65535)
      T(from, to) == FoldLeft(LAMBDA x, i : IF i < from \/ i > to THEN x ELSE x \o (IF i = from THEN <<>> ELSE <<58>>) \o Hex(W(i)),
                              <<>>, <<1, 2, 3, 4, 5, 6, 7, 8>>)
      v4t == V4Text(SubSeq(a, 13, 16)) IN
  IF v4 THEN <<58, 58>> \o (IF best[2] = 5 THEN <<102, 102, 102, 102, 58>> ELSE <<>>) \o v4t
  ELSE IF runs = {} THEN T(1, 8)
  ELSE T(1, best[1] - 1) \o <<58, 58>> \o T(best[2] + 1, 8)

IsDig(c) == c >= 48 /\ c <= 57
DecVal(s) == FoldLeft(LAMBDA x, c : 10 * x + c - 48, 0, s)
HexVal1(c) == IF IsDig(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
\* The address a text stands for, <<>> if it is none
V4Parse(b) ==
  LET g == Split(b, 46) IN
  IF /\ Len(g) = 4
     /\ \A i \in 1..4 : Len(g[i]) \in 1..3 /\ (\A j \in 1..Len(g[i]) : IsDig(g[i][j]))
                        /\ (Len(g[i]) = 1 \/ g[i][1] # 48) /\ DecVal(g[i]) <= 255
  THEN [i \in 1..4 |-> DecVal(g[i])] ELSE <<>>

V6Group(s, last) ==
  IF Len(s) \in 1..4 /\ \A j \in 1..Len(s) : HexVal1(s[j]) >= 0
  THEN LET v == FoldLeft(LAMBDA x, c : 16 * x + HexVal1(c), 0, s) IN <<v \div 256, v % 256>>
  ELSE IF last THEN V4Parse(s) ELSE <<>>
\* last: an IPv4 address may be at the end
V6Groups(s, last) ==
  IF s = <<>> THEN [ok |-> TRUE, b |-> <<>>]
  ELSE LET g == Split(s, 58)
           x == [i \in 1..Len(g) |-> V6Group(g[i], last /\ i = Len(g))] IN
       [ok |-> \A i \in 1..Len(g) : x[i] # <<>>, b |-> FlattenSeq(x)]
V6Parse(b) ==
  LET c == {i \in 1..(Len(b) - 1) : b[i] = 58 /\ b[i+1] = 58} IN
  IF c = {} THEN LET x == V6Groups(b, TRUE) IN IF x.ok /\ Len(x.b) = 16 THEN x.b ELSE <<>>
  ELSE LET i == CHOOSE k \in c : \A j \in c : k <= j
           l == V6Groups(SubSeq(b, 1, i - 1), FALSE)
           r == V6Groups(SubSeq(b, i + 2, Len(b)), TRUE)
           n == 16 - Len(l.b) - Len(r.b) IN
       IF l.ok /\ r.ok /\ n >= 2 THEN l.b \o [j \in 1..n |-> 0] \o r.b ELSE <<>>
AddrText(a) == IF Len(a) = 4 THEN V4Text(a) ELSE V6Text(a)
AddrParse(b) == LET a == V4Parse(b) IN IF a # <<>> THEN a ELSE V6Parse(b)
====
