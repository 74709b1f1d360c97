------------------------------- MODULE Base64 -------------------------------
(* Base64: three bytes are four characters.  Bytes are numbers 0..255.       *)
EXTENDS StrUtil

BInit == 0
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
Table == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
Sym(n) == Ch(Table, n + 1)
ValueOf == [c \in {Ch(Table, i) : i \in 1..64} |-> (CHOOSE i \in 1..64 : Ch(Table, i) = c) - 1]
Enc3(a, b, c) == Sym(a \div 4) \o Sym((a % 4) * 16 + b \div 16) \o Sym((b % 16) * 4 + c \div 64) \o Sym(c % 64)
Enc2(a, b) == Sym(a \div 4) \o Sym((a % 4) * 16 + b \div 16) \o Sym((b % 16) * 4) \o "="
Enc1(a) == Sym(a \div 4) \o Sym((a % 4) * 16) \o "=="
RECURSIVE EncodeFrom(_, _)
EncodeFrom(q, i) == LET n == Len(q) - i + 1
                    IN IF n >= 3 THEN Enc3(q[i], q[i + 1], q[i + 2]) \o EncodeFrom(q, i + 3)
                       ELSE IF n = 2 THEN Enc2(q[i], q[i + 1]) ELSE IF n = 1 THEN Enc1(q[i]) ELSE ""
Encode(q) == EncodeFrom(q, 1)
\* an end mark is put behind complete groups
Marked(q, mark) == Encode(q) \o (IF mark /\ Len(q) % 3 = 0 THEN "====" ELSE "")
-----------------------------------------------------------------------------
(* A group of four characters: how many bytes it stands for, and which.  "="  *)
(* ends the text, in the third or fourth place or as a mark.                 *)
V(c) == IF c \in DOMAIN ValueOf THEN ValueOf[c] ELSE 0
Group(g) == LET c == [i \in 1..4 |-> Ch(g, i)]
                b == << V(c[1]) * 4 + V(c[2]) \div 16, (V(c[2]) % 16) * 16 + V(c[3]) \div 4, (V(c[3]) % 4) * 64 + V(c[4]) >>
                n == IF \E i \in 1..4 : c[i] \notin DOMAIN ValueOf \cup {"="} THEN 0
                     ELSE IF c[1] = "=" \/ c[2] = "=" THEN 0
                     ELSE IF c[3] = "=" THEN 1 ELSE IF c[4] = "=" THEN 2 ELSE 3
            IN SubSeq(b, 1, n)
\* up to max bytes of the groups of a text, up to the first group that is not complete
RECURSIVE Decode(_, _)
Decode(q, max) == IF Len(q) < 4 \/ max <= 0 THEN <<>>
                  ELSE LET g == Group(UpTo(q, 4)) IN IF Len(g) < 3 \/ max <= 3 THEN SubSeq(g, 1, IF max < Len(g) THEN max ELSE Len(g)) ELSE g \o Decode(From(q, 5), max - 3)
\* "=" followed by something else within a group is not determined
Odd(q) == \E i \in 0..(Len(q) \div 4) - 1 : Ch(q, 4 * i + 3) = "=" /\ Ch(q, 4 * i + 4) # "="
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, BInit, "")
    \* the encoding of bytes; e.n is the length reported
    [] e.op = "enc" -> Res(e.s = Marked(e.a, e.mark) /\ e.n = Len(e.s), s, Marked(e.a, e.mark))
    \* ... and decoded again, with the length given, or with that of the text
    [] e.op = "round" -> Res(e.bylen = e.a /\ e.bytext = e.a, s, e.a)
    \* a text decoded: with e.len bytes asked for, or all of it (e.len < 0)
    [] e.op = "dec" -> LET r == Decode(e.s, IF e.len >= 0 THEN e.len ELSE Len(e.s)) IN Res(e.b = r \/ (Odd(e.s) /\ Len(e.b) \in Len(r) - 1..Len(r) + 1), s, r)
    [] e.op = "dec3" -> LET r == Group(e.s) IN Res(e.b = r \/ (Odd(e.s) /\ Len(e.b) <= 1), s, r)
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
