---- MODULE AddrMC ----
(* Every text of at most K tokens, and every address made of a few values:
   model checking of Addr, and the source of the texts given to the real
   library. *)
EXTENDS Addr

CONSTANTS K, OPS, EMIT

TT(s, b) == [s |-> s, b |-> b]
Toks == {TT("0", <<48>>), TT("1", <<49>>), TT("10", <<49, 48>>), TT("255", <<50, 53, 53>>), TT("256", <<50, 53, 54>>),
         TT("ffff", <<102, 102, 102, 102>>), TT("aB", <<97, 66>>), TT(":", <<58>>), TT("::", <<58, 58>>), TT(".", <<46>>)}
      \cup (IF "odd" \in OPS THEN {TT("g", <<103>>), TT("00", <<48, 48>>), TT("10000", <<49, 48, 48, 48, 48>>), TT("%1", <<37, 49>>)} ELSE {})
      \cup (IF "pairs" \in OPS THEN {TT("0:0", <<48, 58, 48>>), TT("1:0", <<49, 58, 48>>), TT("1.2.3", <<49, 46, 50, 46, 51>>), TT("a:b:c:d", <<97, 58, 98, 58, 99, 58, 100>>)} ELSE {})

VARIABLES h,     \* the script: texts that begin with the tokens so far
          b,     \* the text
          s,     \* the same for the script
          a,     \* an address
          n
vars == <<h, b, s, a, n>>

Vals == {<<0, 0>>, <<0, 1>>, <<255, 255>>}
Adr16 == {FlattenSeq(v) : v \in [1..8 -> Vals]}
Adr4 == [1..4 -> {0, 1, 9, 10, 99, 100, 199, 200, 255}]
Init == /\ h = <<>> /\ b = <<>> /\ s = "" /\ n = 0
        /\ a \in (IF "addr" \in OPS THEN {<<>>} \cup Adr16 \cup Adr4 ELSE {<<>>})

Emit(x) == IF EMIT THEN PrintT(<<"SCRIPT", x>>) ELSE TRUE
\* all texts of one more token, as lines
Lines(x) == SetToSeq({"l " \o x \o t.s : t \in Toks})
Next == /\ a = <<>> /\ n < K
        /\ \E t \in Toks : /\ b' = b \o t.b /\ s' = s \o t.s /\ n' = n + 1
                           /\ h' = IF n' = K - 1 THEN Lines(s') ELSE <<>>
        /\ a' = a
        /\ IF n' = K - 1 THEN Emit(h') ELSE TRUE
Spec == Init /\ [][Next]_vars

\* What a text denotes is denoted by its canonical text as well; no text denotes
\* two addresses; texts fit into the buffers.
Canon(x) == LET t == AddrText(x) IN AddrParse(t) = x /\ Len(t) < (IF Len(x) = 4 THEN 16 ELSE 46)
Inv == /\ a # <<>> => Canon(a)
       /\ LET v4 == V4Parse(b)  v6 == V6Parse(b) IN
          /\ v4 = <<>> \/ v6 = <<>>
          /\ v4 # <<>> => Len(v4) = 4 /\ Canon(v4) /\ V4Text(v4) = b
          /\ v6 # <<>> => Len(v6) = 16 /\ Canon(v6) /\ Len(V6Text(v6)) <= Len(b) + 9
          /\ \A j \in DOMAIN v4 : v4[j] \in 0..255
          /\ \A j \in DOMAIN v6 : v6[j] \in 0..255
View == <<b, a, n>>
====
