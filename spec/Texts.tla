------------------------------- MODULE Texts -------------------------------
(* C42: the text helpers.  Long texts are sequences of <<character code,      *)
(* how often>>.  State: what a stream still has, and the environment.          *)
EXTENDS StrUtil
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
TInit0 == [rest |-> <<>>, env |-> <<>>]
Null == "<null>"
Space == {" ", "\t", "\n", "\f", "\r"}
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Prev(s, i) == IF i = 1 THEN "" ELSE Ch(s, i - 1)

(* ---- replacing, letters, characters *)
RECURSIVE Replace(_, _, _)
At(s, x, i) == i + Len(x) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(x) - 1) = x
Places(s, x) == {i \in 1..Len(s) : At(s, x, i)}
\* from left to right, never overlapping, what was put in is not looked at again
Replace(s, x, y) == IF x = "" \/ Places(s, x) = {} THEN s
                    ELSE LET i == CHOOSE i \in Places(s, x) : \A j \in Places(s, x) : i <= j IN UpTo(s, i - 1) \o y \o Replace(From(s, i + Len(x)), x, y)
Capitalized(s) == IF s = "" THEN "" ELSE UpperStr(Ch(s, 1)) \o LowerStr(From(s, 2))
First(s, i) == i = 1 \/ Ch(s, i - 1) \in Space
CapWords(s) == Concat([i \in 1..Len(s) |-> IF First(s, i) THEN UpperStr(Ch(s, i)) ELSE Ch(s, i)])
UncapWords(s) == Concat([i \in 1..Len(s) |-> IF First(s, i) THEN LowerStr(Ch(s, i)) ELSE Ch(s, i)])
AddSpace(s) == Concat([i \in 1..Len(s) |-> (IF i > 1 /\ Ch(s, i) \in Upper /\ Prev(s, i) \notin Space \cup Upper THEN " " ELSE "") \o Ch(s, i)])
Ident(s) == (IF s # "" /\ Ch(s, 1) \in Digits THEN "_" ELSE "") \o Concat([i \in 1..Len(s) |-> IF Ch(s, i) \in Alpha \cup Digits THEN Ch(s, i) ELSE "_"])
Case(s) == [cap |-> Capitalized(s), capw |-> CapWords(s), uncapw |-> UncapWords(s), low |-> LowerStr(s), up |-> UpperStr(s), sp |-> AddSpace(s), id |-> Ident(s)]
Set(d) == SeqToSet(Chars(d))
Only(s, C) == Concat(SelectSeq(Chars(s), LAMBDA c : c \in C))
Without(s, C) == Concat(SelectSeq(Chars(s), LAMBDA c : c \notin C))
Hex == Digits \cup {"A", "B", "C", "D", "E", "F"}
Escape(s, C, c) == Concat([i \in 1..Len(s) |-> (IF Ch(s, i) \in C THEN c ELSE "") \o Ch(s, i)])
CharsOf(s, set, c) ==
  LET C == Set(set)
      t == IF s = Null THEN "" ELSE s
      or(x) == IF s = Null THEN Null ELSE x
  IN [count |-> Cardinality({i \in 1..Len(t) : Ch(t, i) = c}), rem |-> or(Without(t, C)), hex |-> or(Only(t, Hex)),
      rep |-> or(Concat([i \in 1..Len(t) |-> IF Ch(t, i) \in C THEN c ELSE Ch(t, i)])), same |-> TRUE,
      esc |-> Escape(t, C, c), esc0 |-> t, escd |-> Escape(t, C, "\\")]

(* ---- searching and comparing *)
Ascii == "\t\n\f\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(c) == FindIn(Ascii, {c}, 1)
RECURSIVE Compare(_, _)
Compare(a, b) == IF a = "" THEN (IF b = "" THEN 0 ELSE -1) ELSE IF b = "" THEN 1
                 ELSE IF Ch(a, 1) = Ch(b, 1) THEN Compare(From(a, 2), From(b, 2)) ELSE IF Code(Ch(a, 1)) < Code(Ch(b, 1)) THEN -1 ELSE 1
Find(s, x) ==
  LET no == s = Null \/ x = Null
      t == IF s = Null THEN "" ELSE s
      ends == {i \in 1..Len(t) + 1 : At(t, x, i)}
  IN [st |-> ~no /\ StartsWith(t, x), en |-> ~no /\ EndsWith(t, x), st2 |-> x # Null /\ StartsWith(t, x), en2 |-> x # Null /\ EndsWith(t, x),
      last |-> IF no \/ ends = {} THEN -1 ELSE (CHOOSE i \in ends : \A j \in ends : j <= i) - 1,
      cmp |-> IF no THEN 0 ELSE Compare(LowerStr(s), LowerStr(x))]

(* ---- joining, cropping, splitting *)
Join(p) == LET q == SelectSeq(p, LAMBDA x : x # Null) IN IF q = <<>> THEN Null ELSE Concat(q)
\* as long as asked for: the beginning and the end, and up to three dots instead of the middle
Crop(s, n) == IF n = 0 \/ n >= Len(s) THEN s
              ELSE LET m == n \div 2
                       dots == IF n > 4 THEN 3 ELSE IF n > 3 THEN 2 ELSE IF n > 2 THEN 1 ELSE 0
                       left == IF n > 3 THEN m - 1 ELSE m
                       right == n - dots - left
                   IN UpTo(s, left) \o SubSeq("...", 1, dots) \o From(s, Len(s) - right + 1)
RECURSIVE Pieces(_, _)
Pieces(s, C) == LET i == FindIn(s, C, 1) IN IF i > Len(s) THEN <<s>> ELSE <<UpTo(s, i - 1)>> \o Pieces(From(s, i + 1), C)
\* lines end in the separator; what follows the last one is a line only if it is not empty
Lines(s, c) == LET q == Pieces(s, {c}) IN IF q[Len(q)] = "" THEN SubSeq(q, 1, Len(q) - 1) ELSE q
Whole(s, c) == LET q == Pieces(s, {c}) IN q[Len(q)] = ""
DropCr(x) == IF x # "" /\ Ch(x, Len(x)) = "\r" THEN UpTo(x, Len(x) - 1) ELSE x
TextLines(s) == LET q == Lines(s, "\n") IN [i \in 1..Len(q) |-> IF i = Len(q) /\ ~Whole(s, "\n") THEN q[i] ELSE DropCr(q[i])]
PathPieces(s, c, isPath) == IF s = "" THEN <<>> ELSE IF isPath /\ Ch(s, 1) = "/" THEN <<"/">> \o Pieces(From(s, 2), {c}) ELSE Pieces(s, {c})
SplitOf(e) == [x |-> e.h \o TextLines(e.s), rx |-> Whole(e.s, "\n"), y |-> e.h \o Lines(e.s, e.c), ry |-> Whole(e.s, e.c),
               p |-> PathPieces(e.s, e.c, FALSE), q |-> PathPieces(e.s, e.c, TRUE)]

(* ---- paths for makefiles *)
Squeeze(s, c, from) == Concat([i \in 1..Len(s) |-> IF i > from /\ Ch(s, i) = c /\ Ch(s, i - 1) = c THEN "" ELSE Ch(s, i)])
UnixOut(s) == LET t == Squeeze(s, "/", 2) IN Concat([i \in 1..Len(t) |-> (IF Ch(t, i) = " " /\ Prev(t, i) # "\\" THEN "\\" ELSE "") \o Ch(t, i)])
WinOut(s) == LET t == Concat([i \in 1..Len(s) |-> IF Ch(s, i) = "/" THEN "\\" ELSE Ch(s, i)])
                 quoted == t # "" /\ Ch(t, 1) = "\""
                 u == Squeeze(t, "\\", IF quoted THEN 3 ELSE 2)
             IN IF Len(t) < 2 \/ (quoted /\ Len(t) < 3) THEN t ELSE IF " " \in Set(u) /\ ~quoted THEN "\"" \o u \o "\"" ELSE u

(* ---- command lines: what a character does depends on what it is in *)
Blanks == {9, 10, 11, 12, 13, 32}
Put(q, c, n) == IF n = 0 THEN q ELSE IF q # <<>> /\ q[Len(q)][1] = c THEN [q EXCEPT ![Len(q)] = <<c, @[2] + n>>] ELSE Append(q, <<c, n>>)
RECURSIVE Parse(_, _)
Parse(q, z) ==
  IF q = <<>> THEN IF z.arg THEN Append(z.done, z.cur) ELSE z.done
  ELSE LET c == q[1][1]
           n == q[1][2]
           more(k) == IF n = k THEN Tail(q) ELSE <<<<c, n - k>>>> \o Tail(q)
           odd == n % 2 = 1
       IN CASE z.esc -> Parse(more(1), [z EXCEPT !.esc = FALSE, !.arg = TRUE, !.cur = Put(@, c, 1)])
            [] c = 92 -> Parse(Tail(q), [z EXCEPT !.esc = odd, !.arg = @ \/ n > 1, !.cur = Put(@, c, n \div 2)])
            [] c = 39 /\ ~z.dq -> Parse(Tail(q), [z EXCEPT !.sq = IF odd THEN ~@ ELSE @, !.arg = TRUE])
            [] c = 34 /\ ~z.sq -> Parse(Tail(q), [z EXCEPT !.dq = IF odd THEN ~@ ELSE @, !.arg = TRUE])
            [] c \in Blanks /\ ~z.sq /\ ~z.dq -> Parse(Tail(q), IF z.arg THEN [z EXCEPT !.arg = FALSE, !.done = Append(@, z.cur), !.cur = <<>>] ELSE z)
            [] OTHER -> Parse(Tail(q), [z EXCEPT !.arg = TRUE, !.cur = Put(@, c, n)])
Command(q) == Parse(q, [esc |-> FALSE, sq |-> FALSE, dq |-> FALSE, arg |-> FALSE, cur |-> <<>>, done |-> <<>>])

(* ---- lines of a stream *)
RECURSIVE Take(_, _)
Take(q, n) == IF q = <<>> \/ n <= 0 THEN <<>> ELSE IF q[1][2] >= n THEN <<<<q[1][1], n>>>> ELSE <<q[1]>> \o Take(Tail(q), n - q[1][2])
RECURSIVE NlAt(_, _)
NlAt(q, i) == IF i > Len(q) THEN 0 ELSE IF q[i][1] = 10 THEN i ELSE NlAt(q, i + 1)
\* the line, whether it has a newline, and what follows
Line(q) == LET i == NlAt(q, 1) IN
  IF i = 0 THEN [l |-> q, nl |-> FALSE, rest |-> <<>>]
  ELSE [l |-> SubSeq(q, 1, i - 1), nl |-> TRUE, rest |-> (IF q[i][2] = 1 THEN <<>> ELSE <<<<10, q[i][2] - 1>>>>) \o SubSeq(q, i + 1, Len(q))]
NoCr(q) == IF q = <<>> \/ q[Len(q)][1] # 13 THEN q ELSE IF q[Len(q)][2] = 1 THEN SubSeq(q, 1, Len(q) - 1) ELSE [q EXCEPT ![Len(q)] = <<13, @[2] - 1>>]
ReadLine(s, e) ==
  LET x == Line(s.rest)
      l == NoCr(x.l)
  IN [r |-> s.rest # <<>>, l |-> IF e.lim < 0 THEN l ELSE Take(l, e.lim), nl |-> e.ask /\ x.nl]

(* ---- formats *)
Mag(v) == IF StartsWith(v, "-") THEN Len(v) - 1 ELSE Len(v)
Sign(v) == IF StartsWith(v, "-") THEN 1 ELSE 0
RECURSIVE HexLen(_)
HexLen(n) == IF n < 16 THEN 1 ELSE 1 + HexLen(n \div 16)
Prec(p) == IF p = -1 THEN 7 ELSE IF p = 0 THEN 0 ELSE p + 1
Plain(i) == CASE i.k = "t" -> Len(i.v)
              [] i.k = "%" -> 1
              [] i.k = "c" -> 1
              [] i.k \in {"d", "ld"} -> Sign(i.v) + Max(Mag(i.v), i.p)
              [] i.k \in {"x", "lx"} -> Max(HexLen(StrToInt(i.v)), i.p)
              [] i.k = "s" -> IF i.p >= 0 THEN Min(i.p, Len(i.v)) ELSE Len(i.v)
              [] i.k = "f" \/ i.k = "lf" -> Sign(i.v) + Mag(i.v) + Prec(i.p)
              [] i.k = "e" -> Sign(i.v) + 1 + Prec(i.p) + (IF Mag(i.v) > 100 THEN 5 ELSE 4)
RECURSIVE Length(_)
Length(q) == IF q = <<>> THEN 0 ELSE Max(Plain(q[1]), IF q[1].k \in {"t", "%"} THEN 0 ELSE q[1].w) + Length(Tail(q))

(* ---- dates, as days and seconds since 1970 (UTC) *)
Months == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysBefore(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 492) - ((y - 1) \div 100 - 19) + ((y - 1) \div 400 - 4)
MonthDays(y) == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
Days(y, m, d) == DaysBefore(y) + MonthDays(y)[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 1
Num(s) == ToIntD(Trim(s), 0)
Numeral(s) == s # "" /\ Set(s) \subseteq Digits
Month(s) == {m \in 1..12 : Months[m] = s}
None == [r |-> FALSE, d |-> 0, sec |-> 7]
Date(s) == IF s = Null \/ Len(s) # 11 \/ Month(SubSeq(s, 1, 3)) = {} THEN None
           ELSE [r |-> TRUE, d |-> Days(Num(SubSeq(s, 8, 11)), CHOOSE m \in Month(SubSeq(s, 1, 3)) : TRUE, Num(SubSeq(s, 5, 6))), sec |-> 0]
Stamp(s) == IF s = Null \/ Len(s) < 24 \/ Len(s) > 26 \/ Month(SubSeq(s, 5, 7)) = {} THEN None
            ELSE [r |-> TRUE, d |-> Days(Num(SubSeq(s, 21, 24)), CHOOSE m \in Month(SubSeq(s, 5, 7)) : TRUE, Num(SubSeq(s, 9, 10))),
                  sec |-> 3600 * Num(SubSeq(s, 12, 13)) + 60 * Num(SubSeq(s, 15, 16)) + Num(SubSeq(s, 18, 19))]

(* ---- the environment *)
Env(s, e) == LET i == FindIn(e.s, {"="}, 1)
                 k == UpTo(e.s, i - 1)
             IN IF i > Len(e.s) \/ e.k = "unput" THEN [r |-> TRUE, env |-> [x \in DOMAIN s.env \ {k} |-> s.env[x]]]
                ELSE IF k = "" THEN [r |-> FALSE, env |-> s.env] ELSE [r |-> TRUE, env |-> (k :> From(e.s, i + 1)) @@ s.env]
GetEnv(s, k) == IF k \in DOMAIN s.env THEN LET v == s.env[k] IN [has |-> TRUE, has2 |-> TRUE, v |-> v, w |-> v, p |-> v, q |-> v, g |-> v]
                ELSE [has |-> FALSE, has2 |-> FALSE, v |-> "left", w |-> "left", p |-> Null, q |-> Null, g |-> Null]
NoSlash(x) == IF Len(x) > 1 /\ Ch(x, Len(x)) = "/" THEN UpTo(x, Len(x) - 1) ELSE x
PathOf(s, k) == IF k \notin DOMAIN s.env \/ s.env[k] = "" THEN <<>> ELSE LET q == Lines(s.env[k], ":") IN [i \in 1..Len(q) |-> NoSlash(Squeeze(q[i], "/", 2))]

(* ---- a program and its arguments: the longest beginning, up to a space, that is a file or in the search path *)
Here == {"prog", "a b", "c", "prog x", "dir", "bin", "bin/tool", "bin/to ol"}
Tools == {"tool", "to ol"}
Cuts(s) == {i \in 1..Len(s) : Ch(s, i) = " " /\ UpTo(s, i - 1) \in Here \cup Tools} \cup (IF s \in Here \cup Tools THEN {Len(s) + 1} ELSE {})
Program(s) == IF Cuts(s) = {} THEN [p |-> "", a |-> ""]
              ELSE LET i == CHOOSE i \in Cuts(s) : \A j \in Cuts(s) : j <= i
                       t == UpTo(s, i - 1)
                   IN [p |-> IF t \in Here THEN t ELSE "/bin/" \o t, a |-> From(s, i)]

Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, TInit0, "")
    [] e.op = "repl" -> LET x == Replace(e.s, e.x, IF e.y = Null THEN "" ELSE e.y) IN Res(e.r = x /\ e.r2 = x, s, x)
    [] e.op = "case" -> LET x == Case(e.s) IN Res(x = [cap |-> e.cap, capw |-> e.capw, uncapw |-> e.uncapw, low |-> e.low, up |-> e.up, sp |-> e.sp, id |-> e.id], s, x)
    [] e.op = "chars" -> LET x == CharsOf(e.s, e.set, e.c)
                         IN Res(x = [count |-> e.count, rem |-> e.rem, hex |-> e.hex, rep |-> e.rep, same |-> e.same, esc |-> e.esc, esc0 |-> e.esc0, escd |-> e.escd], s, x)
    [] e.op = "find" -> LET x == Find(e.s, e.x) IN Res(x = [st |-> e.st, en |-> e.en, st2 |-> e.st2, en2 |-> e.en2, last |-> e.last, cmp |-> e.cmp], s, x)
    [] e.op = "join" -> LET x == [two |-> Join(SubSeq(e.p, 1, 2)), three |-> Join(e.p), dup |-> e.p[1]] IN Res(x = [two |-> e.two, three |-> e.three, dup |-> e.dup], s, x)
    [] e.op = "crop" -> Res(e.r = Crop(e.s, e.n), s, Crop(e.s, e.n))
    [] e.op = "split" -> LET x == SplitOf(e) IN Res(x = [x |-> e.x, rx |-> e.rx, y |-> e.y, ry |-> e.ry, p |-> e.p, q |-> e.q], s, x)
    [] e.op = "out" -> LET x == [u |-> UnixOut(e.s), w |-> WinOut(e.s), o |-> UnixOut(e.s)] IN Res(x = [u |-> e.u, w |-> e.w, o |-> e.o], s, x)
    [] e.op = "cmdline" -> IF e.flags # 0 THEN Res(e.null, s, "no flags are known") ELSE LET x == Command(e.s) IN Res(~e.null /\ e.r = x, s, x)
    [] e.op = "sopen" -> Res(TRUE, [s EXCEPT !.rest = e.s], "")
    [] e.op = "sline" -> LET x == ReadLine(s, e) IN Res(x = [r |-> e.r, l |-> e.l, nl |-> e.nl], [s EXCEPT !.rest = Line(@).rest], x)
    [] e.op = "fmt" -> LET n == Length(e.q) IN Res(e.real = n /\ e.est >= n, s, n)
    [] e.op = "date" -> LET x == IF e.k = "date" THEN Date(e.s) ELSE Stamp(e.s) IN Res(x = [r |-> e.r, d |-> e.d, sec |-> e.sec], s, x)
    [] e.op = "env" -> LET x == Env(s, e) IN Res(e.r = x.r, [s EXCEPT !.env = x.env], x.r)
    [] e.op = "getenv" -> LET x == GetEnv(s, e.k) IN Res(x = [has |-> e.has, has2 |-> e.has2, v |-> e.v, w |-> e.w, p |-> e.p, q |-> e.q, g |-> e.g], s, x)
    [] e.op = "path" -> Res(e.x = e.h \o PathOf(s, e.k), s, PathOf(s, e.k))
    [] e.op = "progargs" -> LET x == Program(e.s) IN Res(x = [p |-> e.p, a |-> e.a], s, x)
    [] OTHER -> Res(FALSE, s, "unknown")
=============================================================================
