---- MODULE Http ----
(* HTTP/1.1 headers, line by line. Lines are sequences of bytes without the
   CR LF; strings are ropes. *)
EXTENDS Rope

Http11 == <<72, 84, 84, 80, 47, 49, 46, 49>>
CRLF == <<13, 10>>
GET == <<71, 69, 84>>

RECURSIVE Sp(_, _), Tok(_, _)
\* the first position from i on that is not a space (is one), or one past the end
Sp(b, i) == IF i > Len(b) \/ b[i] # 32 THEN i ELSE Sp(b, i + 1)
Tok(b, i) == IF i > Len(b) \/ b[i] = 32 THEN i ELSE Tok(b, i + 1)
RECURSIVE TokC(_, _)    \* ... or a colon
TokC(b, i) == IF i > Len(b) \/ b[i] \in {32, 58} THEN i ELSE TokC(b, i + 1)
RECURSIVE Back(_, _)    \* the last position up to i that is not a space
Back(b, i) == IF i < 1 \/ b[i] # 32 THEN i ELSE Back(b, i - 1)
Cut(b, i, j) == SubSeq(b, i, j - 1)

Bad(e) == [e |-> e, v |-> 0, p |-> <<>>]
Good(v, p) == [e |-> "0", v |-> v, p |-> p]

(* What the receiver makes of a line; n, m: sizes of its buffers. p: the parts. *)
PReq(b, n, m) ==
  LET s1 == Sp(b, 1)  e1 == Tok(b, s1)
      s2 == Sp(b, e1)  e2 == Tok(b, s2)
      s3 == Sp(b, e2)  e3 == Tok(b, s3) IN
  IF e1 > Len(b) THEN Bad("EPROTO")
  ELSE IF e1 - s1 >= n THEN Bad("EMSGSIZE")
  ELSE IF e2 > Len(b) THEN Bad("EPROTO")
  ELSE IF e2 - s2 >= m THEN Bad("EMSGSIZE")
  ELSE IF Cut(b, s3, e3) # Http11 \/ Sp(b, e3) <= Len(b) THEN Bad("EPROTO")
  ELSE Good(0, <<Cut(b, s1, e1), Cut(b, s2, e2)>>)

PStat(b, n) ==
  LET s1 == Sp(b, 1)  e1 == Tok(b, s1)
      s2 == Sp(b, e1)  e2 == Tok(b, s2)
      s3 == Sp(b, e2) IN
  IF e1 > Len(b) \/ Cut(b, s1, e1) # Http11 THEN Bad("EPROTO")
  ELSE IF e2 > Len(b) \/ e2 - s2 # 3 \/ \E i \in s2..(s2+2) : b[i] < 48 \/ b[i] > 57 THEN Bad("EPROTO")
  ELSE IF Len(b) + 1 - s3 >= n THEN Bad("EMSGSIZE")
  ELSE Good((b[s2] - 48) * 100 + (b[s2+1] - 48) * 10 + b[s2+2] - 48, <<Cut(b, s3, Len(b) + 1)>>)

PField(b, n, m) ==
  LET s1 == Sp(b, 1)  e1 == TokC(b, s1)
      c == Sp(b, e1)
      s2 == Sp(b, c + 1)  e2 == Back(b, Len(b)) + 1 IN
  IF e1 > Len(b) THEN Bad("EPROTO")
  ELSE IF e1 - s1 >= n THEN Bad("EMSGSIZE")
  ELSE IF c > Len(b) \/ b[c] # 58 THEN Bad("EPROTO")
  ELSE LET v == IF s2 > Len(b) THEN <<>> ELSE Cut(b, s2, e2) IN
       IF Len(v) >= m THEN Bad("EMSGSIZE")
       ELSE Good(0, <<Cut(b, s1, e1), v>>)

(* What the sender puts on a line. *)
Req(cmd, res) == RCats(<<cmd, Lit(<<32>>), res, Lit(<<32>>), Lit(Http11)>>)
Stat(v, reason) == RCats(<<Lit(Http11), Lit(<<32, 48 + (v \div 100), 48 + ((v \div 10) % 10), 48 + (v % 10), 32>>), reason>>)
Strip(v) == LET b == RBytes(v, 0, RLen(v))  i == Sp(b, 1)  j == Back(b, Len(b)) IN
            IF i > j THEN <<>> ELSE RTake(RDrop(v, i - 1), j + 1 - i)
Field(name, v) == RCats(<<name, Lit(<<58, 32>>), Strip(v)>>)

Blanks == {9, 10, 13, 32}
Seps == {9, 10, 13, 32, 34, 40, 41, 44, 47, 58, 59, 60, 61, 62, 63, 64, 91, 92, 93, 123, 125}
Has(r, S) == \E u \in {r[i] : i \in 1..Len(r)} :
   IF u[1] = -1 THEN \E j \in 2..Len(u) : u[j] \in S
   ELSE u[1] < 1000 /\ \E j \in 0..(RunLen(u)-1) : RunByte(u, j) \in S
ReqErr(cmd, res) == IF cmd = <<>> \/ res = <<>> \/ Has(cmd, Blanks) \/ Has(res, Blanks) THEN {"EINVAL"} ELSE {}
StatErr(v, reason) == IF v < 100 \/ v > 599 \/ Has(reason, {10, 13}) THEN {"EINVAL"} ELSE {}
FieldErr(name, v) == (IF Has(name, Seps) \/ Has(v, {10, 13}) THEN {"EINVAL"} ELSE {})
                     \cup (IF Strip(v) = <<>> THEN {"EPROTO"} ELSE {})

Lower(b) == [i \in 1..Len(b) |-> IF b[i] >= 65 /\ b[i] <= 90 THEN b[i] + 32 ELSE b[i]]
====
