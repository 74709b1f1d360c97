------------------------------- MODULE Values -------------------------------
(* Value types: colours, features, landmarks, geographic points, descriptors *)
(* and timestamps in configuration blocks.  Numbers are counted in quarters, *)
(* which are exact in single precision and in six digits of text.            *)
(* An object: its kind k, number type t, numbers o, and its covariance, c,   *)
(* as the rows of the matrix (empty while it has not been set: unspecified). *)
EXTENDS StrUtil

VInit == [objs |-> <<>>, cfg |-> <<>>]
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
White == <<255, 255, 255>>
Default(k) == CASE k = "color" -> White
                [] k = "feat" -> <<0, 0, 0, 4, 0>> \o White             \* location, magnitude, scale, angle, colour
                [] k = "lm" -> <<0, 0, 0, 4, 0, 0, 0>> \o White \o <<0>>   \* location, scale, normal, colour, observations
                [] k = "geo" -> <<1776, 1776>>
\* where an attribute starts
Attr(k, a) == CASE k = "color" -> (CASE a = "r" -> 1 [] a = "g" -> 2 [] a = "b" -> 3)
                [] k = "feat" -> (CASE a = "loc" -> 1 [] a = "mag" -> 3 [] a = "scale" -> 4 [] a = "angle" -> 5 [] a = "color" -> 6)
                [] k = "lm" -> (CASE a = "loc" -> 1 [] a = "scale" -> 4 [] a = "normal" -> 5 [] a = "color" -> 8 [] a = "obs" -> 11)
                [] k = "geo" -> (CASE a = "lat" -> 1 [] a = "lon" -> 2)
                [] k = "desc" -> StrToInt(a)
SetAt(o, i, v) == [j \in 1..Len(o) |-> IF j >= i /\ j < i + Len(v) THEN v[j - i + 1] ELSE o[j]]
\* an integer of quarters as a decimal text
QText(n) == LET a == IF n < 0 THEN -n ELSE n IN (IF n < 0 THEN "-" ELSE "") \o ToString(a \div 4) \o (CASE a % 4 = 0 -> "" [] a % 4 = 1 -> ".25" [] a % 4 = 2 -> ".5" [] a % 4 = 3 -> ".75")
GeoText(x) == "[ " \o QText(x.o[1]) \o " / " \o QText(x.o[2]) \o " ]"
GeoEmpty(x) == x.o = <<1776, 1776>>
GeoValid(x) == x.o[1] \in -360..360 /\ x.o[2] \in -720..1440
\* little-endian bytes of the elements of a descriptor
Byte(n, i) == LET q == IF i = 0 THEN n ELSE IF i = 1 THEN n \div 256 ELSE IF i = 2 THEN n \div 65536 ELSE n \div 16777216 IN q % 256
Width(t) == CASE t \in {"b"} -> 1 [] t = "s" -> 2 [] t \in {"i", "f"} -> 4 [] t = "d" -> 8
Bytes(x) == IF x.t \in {"b", "s", "i"} THEN [j \in 1..(Len(x.o) * Width(x.t)) |-> Byte(x.o[((j - 1) \div Width(x.t)) + 1], (j - 1) % Width(x.t))] ELSE <<>>
Is(e, x) == /\ e.k = x.k /\ e.t = x.t /\ e.o = x.o /\ (x.c # <<>> => e.c = x.c)
            /\ (x.k = "desc" => e.n = Len(x.o) /\ e.nb = Len(x.o) * Width(x.t) /\ (x.t \in {"b", "s", "i"} => e.by = Bytes(x)))
            /\ (x.k = "geo" => e.valid = GeoValid(x) /\ e.empty = GeoEmpty(x))
            \* through the base class
            /\ (x.k \in {"feat", "lm"} => e.base = x.o /\ (x.c # <<>> => e.cbase = x.c))
To(s, e, x) == Res(Is(e, x), [s EXCEPT !.objs = (e.h :> x) @@ @], x)
Obj(k, t, o) == [k |-> k, t |-> t, o |-> o, c |-> <<>>]
Given(s, h) == s.objs[h]
\* a 64-bit number at the start of a text: [ok, the number's text, what follows]
NumEnd(q) == LET i == IF q # "" /\ Ch(q, 1) \in {"-", "+"} THEN 2 ELSE 1 IN SkipIn(q, Digits, i)
HasNum(q) == LET i == IF q # "" /\ Ch(q, 1) \in {"-", "+"} THEN 2 ELSE 1 IN i <= Len(q) /\ Ch(q, i) \in Digits
LTrim(q) == From(q, LTrimFrom(q, 1))
Plain(q) == LET neg == Ch(q, 1) = "-"
                d == StripZeros(IF Ch(q, 1) \in {"-", "+"} THEN From(q, 2) ELSE q)
            IN IF neg /\ d # "0" THEN "-" \o d ELSE d
Max64 == "9223372036854775807"
Min64 == "9223372036854775808"
Fits(q) == LET p == Plain(q) IN IF Ch(p, 1) = "-" THEN DigLE(From(p, 2), Min64) ELSE DigLE(p, Max64)
TsOf(text) == LET a == LTrim(text)
                  b == LTrim(From(a, NumEnd(a)))
                  x == UpTo(a, NumEnd(a) - 1)
                  y == UpTo(b, NumEnd(b) - 1)
              IN IF HasNum(a) /\ HasNum(b) /\ Fits(x) /\ Fits(y) /\ (b # "" /\ (From(a, NumEnd(a)) # b \/ Ch(b, 1) \in {"-", "+"}))
                 THEN [ok |-> TRUE, t |-> Plain(x), f |-> Plain(y), rest |-> From(b, NumEnd(b))] ELSE [ok |-> FALSE, t |-> "", f |-> "", rest |-> ""]
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, VInit, "")
    [] e.op = "new" -> To(s, e, Obj(e.k, e.t, Default(e.k)))
    \* a constructor with values: the first ones of the numbers, the others are the defaults
    [] e.op = "make" -> To(s, e, Obj(e.k, e.t, IF e.at = "color" /\ e.k = "feat" THEN e.a ELSE SetAt(Default(e.k), 1, e.a)))
    [] e.op = "desc" -> To(s, e, Obj("desc", e.t, e.a))
    [] e.op = "set" -> To(s, e, LET x == Given(s, e.h) IN [x EXCEPT !.o = SetAt(@, Attr(x.k, e.at), e.a)])
    \* the covariance, as the rows of a symmetric matrix
    [] e.op = "covar" -> To(s, e, [Given(s, e.h) EXCEPT !.c = e.a])
    [] e.op \in {"copy", "assign", "clone"} -> To(s, e, Given(s, e.g))
    [] e.op = "conv" -> To(s, e, [Given(s, e.g) EXCEPT !.t = e.t])
    [] e.op = "show" -> To(s, e, Given(s, e.h))
    \* the text of g is read into h, whose covariance the text does not carry
    [] e.op = "text" -> To(s, e, [Given(s, e.h) EXCEPT !.o = Given(s, e.g).o])
    [] e.op = "ctext" -> IF \A i \in 1..3 : e.a[i] \in 0..255 THEN Res(~e.fail /\ Is(e, [Given(s, e.h) EXCEPT !.o = e.a]), [s EXCEPT !.objs[e.h].o = e.a], e.a)
                         ELSE Res(e.fail /\ Is(e, Given(s, e.h)), s, "out of range")
    [] e.op = "eq" -> Res(e.eq = (Given(s, e.h).o = Given(s, e.g).o) /\ e.ne = ~e.eq, s, Given(s, e.h).o = Given(s, e.g).o)
    [] e.op = "geotext" -> Res(e.s = GeoText(Given(s, e.h)) /\ e.prec, s, GeoText(Given(s, e.h)))
    \* timestamps in a configuration block
    [] e.op = "tsset" -> Res(e.s = e.t \o " " \o e.f, [s EXCEPT !.cfg = (e.k :> e.s) @@ @], e.t \o " " \o e.f)
    [] e.op = "cfgset" -> Res(TRUE, [s EXCEPT !.cfg = (e.k :> Trim(e.s)) @@ @], "")
    [] e.op = "tsget" -> LET r == TsOf(s.cfg[e.k])
                         IN IF r.ok THEN Res((e.err = "" /\ e.t = r.t /\ e.f = r.f /\ e.vt /\ e.vf) \/ (Trim(r.rest) # "" /\ e.err = "bad_config_block_cast"), s, r)
                            ELSE Res(e.err = "bad_config_block_cast", s, "bad cast")
    [] e.op = "tsgetd" -> LET r == TsOf(s.cfg[e.k])
                          IN IF r.ok THEN Res((e.t = r.t /\ e.f = r.f) \/ (Trim(r.rest) # "" /\ e.t = e.dt /\ e.f = e.df), s, r)
                             ELSE Res(e.t = e.dt /\ e.f = e.df, s, "default")
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
