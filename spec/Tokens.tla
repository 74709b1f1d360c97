------------------------------- MODULE Tokens -------------------------------
(* Splitting of strings at delimiter characters.                             *)
EXTENDS StrUtil

KInit == <<>>
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
Set(d) == {Ch(d, i) : i \in 1..Len(d)}
\* one element per gap between delimiters (and before the first and after the last)
RECURSIVE Split(_, _)
Split(q, D) == LET i == FindIn(q, D, 1) IN IF i > Len(q) THEN <<q>> ELSE <<UpTo(q, i - 1)>> \o Split(From(q, i + 1), D)
Runs(q, D) == SelectSeq(Split(q, D), LAMBDA x : x # "")
Tokenized(q, d, trim) == IF trim THEN Runs(q, Set(d)) ELSE Split(q, Set(d))
\* e.h is the container, which keeps what it held
Held(s, h) == IF h \in DOMAIN s THEN s[h] ELSE <<>>
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, KInit, "")
    [] e.op = "tok" -> LET r == Held(s, e.h) \o Tokenized(e.s, IF e.dflt THEN " " ELSE e.d, e.trim) IN Res(e.out = r, (e.h :> e.out) @@ s, r)
    [] e.op = "clear" -> Res(TRUE, (e.h :> <<>>) @@ s, "")
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
