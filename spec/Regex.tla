------------------------------- MODULE Regex -------------------------------
(* Regular expressions: how a pattern reads, where it matches, and objects   *)
(* that hold a compiled pattern.                                             *)
EXTENDS StrUtil

XInit == <<>>
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [c \in {Ch(Ascii, i) : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c]
Mult == {"*", "+", "?"}
MaxGroups == 9

-----------------------------------------------------------------------------
\* Reading.  A result is [ok, x, i, n, w]: the tree, the next position, the groups opened so far, and whether x
\* always takes at least one character (what may be repeated)
Bad == [ok |-> FALSE, x |-> [k |-> "bad"], i |-> 0, n |-> 0, w |-> FALSE]
Good(x, i, n, w) == [ok |-> TRUE, x |-> x, i |-> i, n |-> n, w |-> w]
At(p, i) == IF i <= Len(p) THEN Ch(p, i) ELSE ""

\* the members of a bracket expression, from position i on; S: those before
RECURSIVE Class(_, _, _)
Class(p, i, S) ==
  CASE At(p, i) = "" -> [ok |-> FALSE, i |-> i, S |-> S]
    [] At(p, i) = "]" -> [ok |-> TRUE, i |-> i + 1, S |-> S]
    [] At(p, i) = "-" /\ At(p, i + 1) \notin {"", "]"} ->
         LET a == Ch(p, i - 1) b == Ch(p, i + 1)
         IN IF Code[a] > Code[b] THEN [ok |-> FALSE, i |-> i, S |-> S] ELSE Class(p, i + 2, S \cup {c \in DOMAIN Code : Code[c] >= Code[a] /\ Code[c] <= Code[b]})
    [] OTHER -> Class(p, i + 1, S \cup {Ch(p, i)})
Bracket(p, i, n) ==
  LET neg == At(p, i) = "^"
      j == IF neg THEN i + 1 ELSE i
      lit == At(p, j) \in {"]", "-"}
      r == Class(p, IF lit THEN j + 1 ELSE j, IF lit THEN {Ch(p, j)} ELSE {})
  IN IF r.ok THEN Good([k |-> "set", neg |-> neg, S |-> r.S], r.i, n, TRUE) ELSE Bad

RECURSIVE Alts(_, _, _), Branch(_, _, _, _, _), Atom(_, _, _)
\* neighbouring characters are one text
Add(l, x) == IF x.k = "chr" /\ l # <<>> /\ l[Len(l)].k \in {"chr", "str"} THEN [l EXCEPT ![Len(l)] = [k |-> "str", c |-> @.c \o x.c]] ELSE Append(l, x)
\* alternatives up to a closing parenthesis or the end
Alts(p, i, n) ==
  LET b == Branch(p, i, n, <<>>, FALSE)
  IN IF ~b.ok \/ At(p, b.i) # "|" THEN b
     ELSE LET r == Alts(p, b.i + 1, b.n) IN IF r.ok THEN Good([k |-> "alt", a |-> b.x, b |-> r.x], r.i, r.n, b.w /\ r.w) ELSE Bad
Branch(p, i, n, l, w) ==
  IF At(p, i) \in {"", "|", ")"} THEN Good([k |-> "cat", l |-> l], i, n, w)
  ELSE LET a == Atom(p, i, n) q == At(p, a.i)
       IN IF ~a.ok THEN Bad
          ELSE IF q \notin Mult THEN Branch(p, a.i, a.n, Add(l, a.x), w \/ a.w)
          ELSE IF (~a.w /\ q # "?") \/ At(p, a.i + 1) \in Mult THEN Bad
          ELSE Branch(p, a.i + 1, a.n, Append(l, [k |-> "rep", q |-> q, x |-> a.x]), w \/ q = "+")
Atom(p, i, n) ==
  LET c == Ch(p, i)
  IN CASE c = "^" -> Good([k |-> "bol"], i + 1, n, FALSE)
       [] c = "$" -> Good([k |-> "eol"], i + 1, n, FALSE)
       [] c = "." -> Good([k |-> "any"], i + 1, n, TRUE)
       [] c = "[" -> Bracket(p, i + 1, n)
       [] c = "(" -> IF n = MaxGroups THEN Bad
                     ELSE LET r == Alts(p, i + 1, n + 1)
                          IN IF r.ok /\ At(p, r.i) = ")" THEN Good([k |-> "grp", n |-> n + 1, x |-> r.x], r.i + 1, r.n, r.w) ELSE Bad
       [] c \in Mult -> Bad
       [] c = "\\" -> IF i = Len(p) THEN Bad ELSE Good([k |-> "chr", c |-> Ch(p, i + 1)], i + 2, n, TRUE)
       [] OTHER -> Good([k |-> "chr", c |-> c], i + 1, n, TRUE)
Read(p) == LET r == Alts(p, 1, 0) IN IF r.ok /\ r.i = Len(p) + 1 THEN r ELSE Bad

-----------------------------------------------------------------------------
\* the language: x matches the part of t from i up to (excluding) j
One(x, c) == CASE x.k = "chr" -> c = x.c [] x.k = "any" -> TRUE [] x.k = "set" -> (c \in x.S) # x.neg [] OTHER -> FALSE
RECURSIVE In(_, _, _, _), CatIn(_, _, _, _), StarIn(_, _, _, _)
In(x, t, i, j) ==
  CASE x.k \in {"chr", "any", "set"} -> j = i + 1 /\ i <= Len(t) /\ One(x, Ch(t, i))
    [] x.k = "str" -> j = i + Len(x.c) /\ j <= Len(t) + 1 /\ SubSeq(t, i, j - 1) = x.c
    [] x.k = "bol" -> i = 1 /\ j = i
    [] x.k = "eol" -> i = Len(t) + 1 /\ j = i
    [] x.k = "cat" -> CatIn(x.l, t, i, j)
    [] x.k = "alt" -> In(x.a, t, i, j) \/ In(x.b, t, i, j)
    [] x.k = "grp" -> In(x.x, t, i, j)
    [] OTHER -> CASE x.q = "?" -> i = j \/ In(x.x, t, i, j) [] x.q = "*" -> StarIn(x.x, t, i, j) [] OTHER -> \E k \in i..j : In(x.x, t, i, k) /\ StarIn(x.x, t, k, j)
CatIn(l, t, i, j) == IF l = <<>> THEN i = j ELSE \E k \in i..j : In(Head(l), t, i, k) /\ CatIn(Tail(l), t, k, j)
StarIn(x, t, i, j) == i = j \/ \E k \in (i + 1)..j : In(x, t, i, k) /\ StarIn(x, t, k, j)

-----------------------------------------------------------------------------
\* the ends of the matches of x from i, the preferred one first: repetitions take as much as they can, alternatives are
\* tried from left to right; each with the parts that the groups took
NoCaps == [n \in 1..MaxGroups |-> <<0, 0>>]
RECURSIVE Fresh(_, _)
Fresh(q, S) == IF q = <<>> THEN <<>> ELSE IF Head(q)[1] \in S THEN Fresh(Tail(q), S) ELSE <<Head(q)>> \o Fresh(Tail(q), S \cup {Head(q)[1]})
RECURSIVE Ends(_, _, _), CatEnds(_, _, _), StarEnds(_, _, _), Each(_, _, _, _)
\* h = <<i, caps>>
Ends(x, t, h) ==
  LET i == h[1]
  IN CASE x.k \in {"chr", "any", "set"} -> IF i <= Len(t) /\ One(x, Ch(t, i)) THEN <<<<i + 1, h[2]>>>> ELSE <<>>
       [] x.k = "str" -> IF i + Len(x.c) <= Len(t) + 1 /\ SubSeq(t, i, i + Len(x.c) - 1) = x.c THEN <<<<i + Len(x.c), h[2]>>>> ELSE <<>>
       [] x.k = "bol" -> IF i = 1 THEN <<h>> ELSE <<>>
       [] x.k = "eol" -> IF i = Len(t) + 1 THEN <<h>> ELSE <<>>
       [] x.k = "cat" -> CatEnds(x.l, t, <<h>>)
       [] x.k = "alt" -> Fresh(Ends(x.a, t, h) \o Ends(x.b, t, h), {})
       [] x.k = "grp" -> LET q == Ends(x.x, t, h) IN [m \in 1..Len(q) |-> <<q[m][1], [q[m][2] EXCEPT ![x.n] = <<i, q[m][1]>>]>>]
       [] OTHER -> CASE x.q = "?" -> Fresh(Ends(x.x, t, h) \o <<h>>, {}) [] x.q = "*" -> StarEnds(x.x, t, h) [] OTHER -> Fresh(Each("star", x.x, t, Ends(x.x, t, h)), {})
StarEnds(x, t, h) == Fresh(Each("star", x, t, Ends(x, t, h)) \o <<h>>, {})
CatEnds(l, t, q) == IF l = <<>> \/ q = <<>> THEN q ELSE CatEnds(Tail(l), t, Fresh(Each("one", Head(l), t, q), {}))
Each(f, x, t, q) == IF q = <<>> THEN <<>> ELSE (IF f = "one" THEN Ends(x, t, Head(q)) ELSE StarEnds(x, t, Head(q))) \o Each(f, x, t, Tail(q))

\* the first match: <<start, end, caps>>, or <<0, 0, NoCaps>>
RECURSIVE Search(_, _, _)
Search(x, t, i) == LET q == Ends(x, t, <<i, NoCaps>>)
                   IN IF q # <<>> THEN <<i, q[1][1], q[1][2]>> ELSE IF i > Len(t) THEN <<0, 0, NoCaps>> ELSE Search(x, t, i + 1)

-----------------------------------------------------------------------------
\* objects: [st: "none", "ok" or "odd" (a pattern was refused after another one), p, x, last: what the last search found]
Nothing == [found |-> FALSE, t |-> "", g |-> <<>>]
None == [st |-> "none", p |-> "", x |-> <<>>, last |-> Nothing]
\* positions from zero; -1 for groups that took no part
Groups(r) == [n \in 1..(MaxGroups + 1) |-> IF n = 1 THEN <<r[1] - 1, r[2] - 1>> ELSE <<r[3][n - 1][1] - 1, r[3][n - 1][2] - 1>>]
Texts(t, g) == [n \in 1..(MaxGroups + 1) |-> IF g[n][1] < 0 THEN "" ELSE SubSeq(t, g[n][1] + 1, g[n][2])]
Shown(e, o) == e.g = o.g /\ e.m = Texts(o.t, o.g)
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, XInit, "")
    [] e.op = "new" -> Res(e.valid = FALSE, (e.h :> None) @@ s, "")
    \* e.how: "ctor" (a new object) or "compile"
    [] e.op = "comp" ->
         LET r == Read(e.p)
             o == IF e.how = "ctor" \/ e.h \notin DOMAIN s THEN None ELSE s[e.h]
         IN IF r.ok THEN Res(e.valid /\ (e.how = "ctor" \/ e.ok), (e.h :> [st |-> "ok", p |-> e.p, x |-> r.x, last |-> Nothing]) @@ s, "accepted")
            ELSE IF o.st = "none" THEN Res(~e.valid /\ (e.how = "ctor" \/ ~e.ok), (e.h :> o) @@ s, "refused")
            ELSE Res(~e.ok, (e.h :> [o EXCEPT !.st = "odd"]) @@ s, "refused")
    [] e.op = "find" ->
         LET o == s[e.h]
         IN IF o.st = "none" THEN Res(~e.found, s, FALSE)
            ELSE IF o.st = "odd" THEN Res(TRUE, s, "")
            ELSE LET r == Search(o.x, e.t, 1)
                     w == [found |-> r[1] > 0, t |-> e.t, g |-> Groups(r)]
                 IN Res(e.found = w.found /\ (w.found => Shown(e, w)), [s EXCEPT ![e.h].last = w], w)
    \* what the object says about its last search
    [] e.op = "show" -> LET o == s[e.h] IN Res(o.st = "ok" => (e.valid /\ (o.last.found => Shown(e, o.last))), s, o.last)
    [] e.op = "copy" -> Res(TRUE, (e.h :> s[e.g]) @@ s, "")
    [] e.op = "inval" -> Res(~e.valid, (e.h :> None) @@ s, "")
    [] e.op = "eqv" /\ ~e.both -> Res(TRUE, s, "")
    [] e.op = "eqv" -> LET a == s[e.h] b == s[e.g]
                      IN Res(a.st = "ok" /\ b.st = "ok" => ((a.p = b.p => e.eq) /\ (e.eq => a.x = b.x) /\ e.ne = ~e.eq), s, "")
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
