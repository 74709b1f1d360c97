------------------------------- MODULE Paths -------------------------------
(* Path texts and the locations they stand for, by lexical rules.            *)
(* A location: the root ("/" the root directory, "//" the network, "" none)  *)
(* and the names below it.  The state is the home directory ("" when there   *)
(* is none).                                                                 *)
EXTENDS StrUtil

SInit == [home |-> ""]
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]

\* ---- texts
RECURSIVE Pieces(_)
Pieces(t) == LET i == FindIn(t, {"/"}, 1) IN IF i > Len(t) THEN <<t>> ELSE <<UpTo(t, i - 1)>> \o Pieces(From(t, i + 1))
RootOf(t) == IF StartsWith(t, "//") THEN "//" ELSE IF StartsWith(t, "/") THEN "/" ELSE ""
Rest(t) == From(t, Len(RootOf(t)) + 1)
Tilde(t) == t = "~" \/ StartsWith(t, "~/")
\* the components: the root, then what is between the slashes
Split0(t) == IF Rest(t) = "" THEN <<RootOf(t)>> ELSE <<RootOf(t)>> \o Pieces(Rest(t))
SplitOf(home, t, expand) ==
  IF StartsWith(t, "~") /\ ~expand
  THEN LET i == FindIn(t, {"/"}, 1) IN IF i >= Len(t) THEN <<UpTo(t, i - 1) \o "/">> ELSE <<UpTo(t, i - 1) \o "/">> \o Pieces(From(t, i + 1))
  \* without a home directory, and with one of a user that does not exist, it is a name like others
  ELSE IF Tilde(t) /\ home # "" THEN LET h == Split0(IF home # "/" /\ EndsWith(home, "/") THEN UpTo(home, Len(home) - 1) ELSE home)
                        IN IF Len(t) <= 2 THEN h ELSE h \o Pieces(From(t, 3))
  ELSE Split0(t)
JoinOf(c) == IF c = <<>> THEN "" ELSE IF Len(c) = 1 THEN c[1] ELSE c[1] \o JoinWith(Tail(c), "/")

\* ---- locations
RECURSIVE Walk(_, _)
\* going up from the root stays there
Walk(names, c) == IF c = <<>> THEN names
                  ELSE Walk(IF Head(c) \in {"", "."} THEN names ELSE IF Head(c) = ".." THEN (IF names = <<>> THEN <<>> ELSE SubSeq(names, 1, Len(names) - 1)) ELSE Append(names, Head(c)), Tail(c))
Loc(home, t, base) ==
  LET c == SplitOf(home, t, TRUE)
      b == SplitOf(home, base, TRUE)
  IN IF c[1] = "" THEN [root |-> b[1], names |-> Walk(Walk(<<>>, Tail(b)), Tail(c))] ELSE [root |-> c[1], names |-> Walk(<<>>, Tail(c))]
Render(x) == x.root \o JoinWith(x.names, "/")
CollapseOf(home, t, base) == Render(Loc(home, t, base))

\* ---- parts of a file name
NameOf(t) == From(t, RFindIn(t, {"/"}, Len(t)) + 1)
FirstDot(n) == FindIn(n, {"."}, 1)
LastDot(n) == LET i == RFindIn(n, {"."}, Len(n)) IN IF i = 0 THEN Len(n) + 1 ELSE i
ExtOf(t) == From(NameOf(t), FirstDot(NameOf(t)))
LastExtOf(t) == From(NameOf(t), LastDot(NameOf(t)))
StemOf(t) == UpTo(NameOf(t), FirstDot(NameOf(t)) - 1)
LastStemOf(t) == UpTo(NameOf(t), LastDot(NameOf(t)) - 1)
Expand(home, t) == IF ~Tilde(t) \/ home = "" THEN t ELSE IF t = "~" THEN home ELSE (IF EndsWith(home, "/") THEN UpTo(home, Len(home) - 1) ELSE home) \o From(t, 2)
\* one slash for several, but for those at the beginning (how many there are is left open), and none at the end
NonEmpty(q) == SelectSeq(q, LAMBDA x : x # "")
Plain(t) == [abs |-> StartsWith(t, "/"), names |-> NonEmpty(Pieces(t))]
NoSpare(t) == LET u == IF StartsWith(t, "//") THEN From(t, 2) ELSE t IN (\A i \in 1..Len(u) - 1 : ~(Ch(u, i) = "/" /\ Ch(u, i + 1) = "/")) /\ (u = "/" \/ ~EndsWith(u, "/"))
\* the directory of t: all names but the last
DirOf(home, t) == LET p == Plain(Expand(home, t)) IN [abs |-> p.abs, names |-> IF p.names = <<>> THEN <<>> ELSE SubSeq(p.names, 1, Len(p.names) - 1)]
RECURSIVE Slashed(_)
\* a backslash that is not before a space becomes a slash
Slashed(t) == IF t = "" THEN "" ELSE (IF Ch(t, 1) = "\\" /\ ~(Len(t) > 1 /\ Ch(t, 2) = " ") THEN "/" ELSE Ch(t, 1)) \o Slashed(From(t, 2))
Drive(t) == Len(t) = 3 /\ Ch(t, 2) = ":" /\ Ch(t, 3) = "/"
RECURSIVE Squeeze(_)
Squeeze(t) == IF Len(t) < 2 THEN t ELSE IF Ch(t, 1) = "/" /\ Ch(t, 2) = "/" THEN Squeeze(From(t, 2)) ELSE Ch(t, 1) \o Squeeze(From(t, 2))
\* but for leading ones, of which two are the network
Squeezed(t) == IF StartsWith(t, "//") THEN "/" \o Squeeze(t) ELSE Squeeze(t)
Unix(home, t) == LET v == Expand(home, Squeezed(Slashed(t)))
                 IN IF Len(v) > 1 /\ EndsWith(v, "/") /\ ~Drive(v) THEN UpTo(v, Len(v) - 1) ELSE v
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Below(home, f, d) == LET p == Plain(Expand(home, f))
                         q == Plain(Expand(home, d))
                     IN d # "" /\ p.abs = q.abs /\ IsPrefix(q.names, p.names) /\ Len(q.names) < Len(p.names)
RECURSIVE Common(_, _)
Common(a, b) == IF a = <<>> \/ b = <<>> THEN 0 ELSE IF Head(a) = Head(b) THEN 1 + Common(Tail(a), Tail(b)) ELSE 0

Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, SInit, "")
    [] e.op = "home" -> Res(TRUE, [s EXCEPT !.home = e.d], "")
    \* again: the result collapsed once more
    [] e.op = "collapse" -> LET r == CollapseOf(s.home, e.p, e.base) IN Res(e.r = r /\ e.again = r, s, r)
    [] e.op = "split" -> LET c == SplitOf(s.home, e.p, e.expand) IN Res(e.c = c /\ e.join = JoinOf(c), s, c)
    [] e.op = "join" -> Res(e.r = JoinOf(e.c), s, JoinOf(e.c))
    [] e.op = "parts" ->
         Res(/\ e.name = NameOf(e.p) /\ e.ext = ExtOf(e.p) /\ e.lext = LastExtOf(e.p) /\ e.stem = StemOf(e.p) /\ e.lstem = LastStemOf(e.p)
             /\ Plain(e.dir) = DirOf(s.home, e.p) /\ NoSpare(e.dir) /\ e.parent = e.dir
             /\ (e.full = (StartsWith(e.p, "/") \/ (Tilde(e.p) /\ s.home # "")) \/ StartsWith(e.p, "~")), s,
             <<NameOf(e.p), ExtOf(e.p), LastExtOf(e.p), StemOf(e.p), LastStemOf(e.p), DirOf(s.home, e.p)>>)
    \* two slashes at the beginning may become one
    [] e.op = "unix" -> LET u == Unix(s.home, e.p) IN Res(e.r = u \/ (StartsWith(u, "//") /\ e.r = From(u, 2)), s, u)
    [] e.op = "below" -> Res(e.r = Below(s.home, e.p, e.d), s, Below(s.home, e.p, e.d))
    \* the shortest way from one location to another
    [] e.op = "rel" ->
         LET a == Loc(s.home, e.p, "/")
             b == Loc(s.home, e.d, "/")
             n == Common(a.names, b.names)
             want == [i \in 1..Len(a.names) - n |-> ".."] \o SubSeq(b.names, n + 1, Len(b.names))
         IN IF e.full THEN Res(RootOf(e.r) = "" /\ NonEmpty(Pieces(e.r)) = want, s, want) ELSE Res(e.r = "", s, "")
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
