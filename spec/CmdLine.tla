------------------------------ MODULE CmdLine ------------------------------
(* Command-line parsing: options in their declared forms, the line, and what *)
(* parsing one argument after the other does with them.                      *)
(* The state: opts, the options by name [form, slot, help]; slots, what was  *)
(* registered, with the values received; line, the arguments; last, how many *)
(* of them parsing has consumed.                                             *)
EXTENDS StrUtil

NoOpts == [n \in {} |-> 0]
SInit == [opts |-> NoOpts, slots |-> <<>>, line |-> <<>>, argv0 |-> "", last |-> 0, unused |-> <<>>, unk |-> "none", store |-> FALSE, width |-> 80]
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]

\* ---- values
TrueTexts == {"1", "ON", "on", "On", "TRUE", "true", "True", "yes", "Yes", "YES"}
\* the number a text begins with (0 if none), and a plain way to write it
Sign(t) == IF t # "" /\ Ch(t, 1) \in {"+", "-"} THEN 1 ELSE 0
IntEnd(t) == SkipIn(t, Digits, Sign(t) + 1)
Neg(t, m) == IF Sign(t) = 1 /\ Ch(t, 1) = "-" /\ m # "0" THEN "-" \o m ELSE m
IntOf(t) == LET d == SubSeq(t, Sign(t) + 1, IntEnd(t) - 1) IN IF d = "" THEN "0" ELSE Neg(t, StripZeros(d))
RECURSIVE NoTrail(_)
NoTrail(f) == IF f # "" /\ EndsWith(f, "0") THEN NoTrail(UpTo(f, Len(f) - 1)) ELSE f
DblOf(t) == LET i == IntEnd(t)
                d == SubSeq(t, Sign(t) + 1, i - 1)
                f == IF i <= Len(t) /\ Ch(t, i) = "." THEN SubSeq(t, i + 1, SkipIn(t, Digits, i + 1) - 1) ELSE ""
                w == IF d = "" THEN "0" ELSE StripZeros(d)
            IN IF d = "" /\ f = "" THEN "0" ELSE IF NoTrail(f) = "" THEN (IF w = "0" THEN (IF Sign(t) = 1 /\ Ch(t, 1) = "-" THEN "-0" ELSE "0") ELSE Neg(t, w)) ELSE Neg(t, w \o "." \o NoTrail(f))
Scalars == {"bool", "int", "double", "cstr", "str"}
Vectors == {"vbool", "vint", "vdouble", "vcstr", "vstr"}
Conv(kind, t) == CASE kind \in {"bool", "vbool"} -> (IF t \in TrueTexts THEN "1" ELSE "0")
                   [] kind \in {"int", "vint"} -> IntOf(t)
                   [] kind \in {"double", "vdouble"} -> DblOf(t)
                   [] OTHER -> t
Start(kind) == CASE kind = "bool" -> <<"0">> [] kind = "int" -> <<"7">> [] kind = "double" -> <<"7.5">> [] kind = "cstr" -> <<"<null>">> [] kind = "str" -> <<"before">> [] OTHER -> <<>>

\* ---- which option an argument is for: the longest name that fits
Fits(opts, n, a) == IF opts[n].form \in {"none", "space"} THEN a = n ELSE StartsWith(a, n)
Fitting(opts, a) == {n \in DOMAIN opts : Fits(opts, n, a)}
Longest(S) == CHOOSE n \in S : \A m \in S : Len(m) <= Len(n)

\* ---- parsing, an argument (or one more value of the option m) at a time
\* i: the next argument; m: the option that takes several values, or ""
PInit(s) == [i |-> 1, m |-> "", from |-> 0, done |-> s.line = <<>>, ok |-> TRUE, last |-> IF s.line = <<>> THEN s.last ELSE 0, calls |-> <<>>, slots |-> s.slots,
             unused |-> IF s.store THEN <<>> ELSE s.unused, tags |-> <<>>]
Fail(p) == [p EXCEPT !.done = TRUE, !.ok = FALSE]
\* the option n receives t
Refuses(n, t) == t = "no" \/ n = "--fail"
Give(s, p, n, null, t) ==
  LET o == s.opts[n]
      k == s.slots[o.slot].kind
      v == Conv(k, IF null THEN "1" ELSE t)
  IN IF k = "call" THEN LET q == [p EXCEPT !.calls = Append(@, <<n, IF null THEN "<null>" ELSE t>>)] IN IF Refuses(n, t) THEN Fail(q) ELSE q
     ELSE [p EXCEPT !.slots[o.slot].vals = IF k \in Scalars THEN <<v>> ELSE Append(@, v)]
Go(s, p, n, tags) == IF p.done THEN p ELSE [p EXCEPT !.i = @ + n, !.last = p.i + n - 1, !.tags = @ \o tags, !.done = (p.i + n > Len(s.line)) ]
One(s, p) ==
  LET a == s.line[p.i]
      F == Fitting(s.opts, a)
      n == Longest(F)
      f == s.opts[n].form
      x == From(a, Len(n) + 1)
      plain == [p EXCEPT !.m = ""]
  IN IF p.m # "" /\ F = {} THEN
       \* what fails for one value leaves the option with all its values to the remaining arguments
       LET g == Give(s, p, p.m, FALSE, a) IN IF g.done THEN [g EXCEPT !.last = p.from] ELSE Go(s, g, 1, <<"val">>)
     ELSE IF F = {} THEN
       (CASE s.unk # "none" -> LET q == [plain EXCEPT !.calls = Append(@, <<"?", a>>)]
                               IN IF s.unk = "fail" THEN Fail(q) ELSE [q EXCEPT !.done = TRUE, !.last = p.i, !.tags = Append(@, "unknown")]
          [] s.unk = "none" /\ s.store -> Go(s, [plain EXCEPT !.unused = Append(@, a)], 1, <<"unused">>)
          [] OTHER -> Fail(plain))
     ELSE CASE f = "none" -> Go(s, Give(s, plain, n, TRUE, ""), 1, <<"option">>)
            [] f = "space" -> IF p.i = Len(s.line) THEN Fail(plain) ELSE Go(s, Give(s, plain, n, FALSE, s.line[p.i + 1]), 2, <<"option", "val">>)
            [] f = "equal" -> IF x = "" \/ Ch(x, 1) # "=" THEN Fail(plain) ELSE Go(s, Give(s, plain, n, FALSE, From(x, 2)), 1, <<"both">>)
            [] f = "concat" -> Go(s, Give(s, plain, n, FALSE, x), 1, <<"both">>)
            [] f = "multi" -> Go(s, [p EXCEPT !.m = n, !.from = p.i - 1], 1, <<"multi">>)
RECURSIVE Run(_, _)
Run(s, p) == IF p.done THEN p ELSE Run(s, One(s, p))
After(s, p) == [s EXCEPT !.slots = p.slots, !.last = p.last, !.unused = p.unused]

\* ---- the help text: the options in the order of their names, those whose help is another's name together with it
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord(c) == CHOOSE i \in 1..Len(Ascii) : Ch(Ascii, i) = c
RECURSIVE Before(_, _)
Before(a, b) == IF b = "" THEN FALSE ELSE IF a = "" THEN TRUE ELSE IF Ch(a, 1) = Ch(b, 1) THEN Before(From(a, 2), From(b, 2)) ELSE Ord(Ch(a, 1)) < Ord(Ch(b, 1))
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Before(x, y) IN <<m>> \o Sorted(S \ {m})
Suffix(f) == CASE f = "none" -> "" [] f = "concat" -> "opt" [] f = "space" -> " opt" [] f = "equal" -> "=opt" [] f = "multi" -> " opt opt ..."
RECURSIVE Words(_)
Words(t) == LET i == SkipIn(t, Blank, 1)
                j == FindIn(t, Blank, i)
            IN IF i > Len(t) THEN <<>> ELSE <<SubSeq(t, i, j - 1)>> \o Words(From(t, j))
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Alias(s, n) == s.opts[n].help \in DOMAIN s.opts \ {n}
HelpWords(s) ==
  LET heads == Sorted({n \in DOMAIN s.opts : ~Alias(s, n)})
      group(h) == Sorted({n \in DOMAIN s.opts : n = h \/ s.opts[n].help = h})
      names(h) == Flat([i \in DOMAIN group(h) |-> Words(group(h)[i] \o Suffix(s.opts[group(h)[i]].form))])
  IN Flat([i \in DOMAIN heads |-> names(heads[i]) \o Words(s.opts[heads[i]].help)])
MaxOf(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Column(s) == 4 + MaxOf({Len(n \o Suffix(s.opts[n].form)) : n \in DOMAIN s.opts})
LongestWord(s) == MaxOf(UNION {{Len(w) : w \in SeqToSet(Words(s.opts[n].help))} : n \in DOMAIN s.opts})
\* words that are wider than the room for them may be cut
HelpOk(s, e) == IF LongestWord(s) <= s.width - Column(s) THEN e.words = HelpWords(s) /\ e.widest <= (IF s.width > Column(s) THEN s.width ELSE Column(s))
                ELSE Concat(e.words) = Concat(HelpWords(s)) /\ (s.width > Column(s) => e.widest <= s.width)
HelpOf(s, n) == IF n \notin DOMAIN s.opts THEN "<null>" ELSE IF Alias(s, n) THEN s.opts[s.opts[n].help].help ELSE s.opts[n].help

Vals(s) == [i \in DOMAIN s.slots |-> s.slots[i].vals]
ViewOk(s, e) == e.vals = Vals(s) /\ e.last = s.last /\ e.rem = <<s.argv0>> \o SubSeq(s.line, s.last + 1, Len(s.line)) /\ e.unused = <<s.argv0>> \o s.unused /\ e.argv0 = s.argv0
ViewOf(s) == [vals |-> Vals(s), last |-> s.last, rem |-> SubSeq(s.line, s.last + 1, Len(s.line)), unused |-> s.unused]

Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, SInit, "")
    [] e.op = "reg" -> Res(TRUE, [s EXCEPT !.slots = Append(@, [kind |-> e.kind, vals |-> Start(e.kind)]),
                                           !.opts = (e.name :> [form |-> e.form, slot |-> Len(s.slots) + 1, help |-> e.help]) @@ @], "")
    [] e.op = "init" -> Res(TRUE, [s EXCEPT !.line = e.a, !.last = 0, !.argv0 = e.argv0], "")
    [] e.op = "add" -> Res(TRUE, [s EXCEPT !.line = Append(@, e.a)], "")
    [] e.op = "unk" -> Res(TRUE, [s EXCEPT !.unk = e.how], "")
    [] e.op = "store" -> Res(TRUE, [s EXCEPT !.store = TRUE], "")
    [] e.op = "parse" -> LET p == Run(s, PInit(s))
                             t == After(s, p)
                         IN Res(e.ok = p.ok /\ e.calls = p.calls /\ e.data /\ ViewOk(t, e), t, <<p.ok, p.calls, ViewOf(t)>>)
    [] e.op = "view" -> Res(ViewOk(s, e), s, ViewOf(s))
    [] e.op = "width" -> LET w == IF e.n < 9 \/ e.n > 1000 THEN s.width ELSE e.n IN Res(e.now = w, [s EXCEPT !.width = w], w)
    [] e.op = "help" -> Res(HelpOk(s, e), s, HelpWords(s))
    [] e.op = "helpof" -> Res(e.r = HelpOf(s, e.name), s, HelpOf(s, e.name))
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
