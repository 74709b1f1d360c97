----------------------------- MODULE Timestamps -----------------------------
(* Timestamps: an optional time, an optional frame and a time domain.  Times *)
(* and frames are 64-bit integers, kept as their decimal texts.              *)
EXTENDS StrUtil

TInit0 == <<>>
None == [vt |-> FALSE, vf |-> FALSE, t |-> "0", f |-> "0", d |-> 0]
Neg(a) == a # "" /\ Ch(a, 1) = "-"
Less(a, b) == CASE Neg(a) /\ ~Neg(b) -> TRUE
                [] ~Neg(a) /\ Neg(b) -> FALSE
                [] ~Neg(a) /\ ~Neg(b) -> a # b /\ DigLE(a, b)
                [] OTHER -> a # b /\ DigLE(From(b, 2), From(a, 2))
\* how two timestamps compare: "lt", "eq", "gt", or "none" when they are not comparable
By(a, b) == IF Less(a, b) THEN "lt" ELSE IF Less(b, a) THEN "gt" ELSE "eq"
Compare(x, y) == IF x.d # y.d THEN "none"
                 ELSE IF x.vt /\ y.vt THEN By(x.t, y.t)
                 ELSE IF x.vf /\ y.vf THEN By(x.f, y.f)
                 ELSE "none"
Relations(x, y) == LET c == Compare(x, y) IN [eq |-> c = "eq", ne |-> c \in {"lt", "gt"}, lt |-> c = "lt", gt |-> c = "gt"]
\* the text of a timestamp, around the date
Before(x) == "ts(f: " \o (IF x.vf THEN x.f ELSE "<inv>") \o ", t: " \o (IF x.vt THEN x.t \o " (" ELSE "<inv>")
After(x) == (IF x.vt THEN ")" ELSE "") \o ", d: " \o ToString(x.d) \o ")"
Printed(x, p) == /\ Len(p) - Len(Before(x)) - Len(After(x)) \in (IF x.vt THEN 24..30 ELSE {0})
                 /\ StartsWith(p, Before(x)) /\ SubSeq(p, Len(p) - Len(After(x)) + 1, Len(p)) = After(x)
-----------------------------------------------------------------------------
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
\* the attributes of a timestamp as observed; what an invalid part reads as is not specified
Seen(e, x) == /\ e.vt = x.vt /\ e.vf = x.vf /\ e.v = (x.vt /\ x.vf) /\ e.d = x.d
              /\ (x.vt => e.t = x.t) /\ (x.vf => e.f = x.f)
To(s, e, x) == Res(Seen(e, x), (e.h :> x) @@ s, x)
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, TInit0, "")
    [] e.op = "new" -> To(s, e, None)
    [] e.op = "both" -> To(s, e, [None EXCEPT !.vt = TRUE, !.vf = TRUE, !.t = e.a, !.f = e.b])
    [] e.op = "copy" -> To(s, e, s[e.g])
    [] e.op = "time" -> To(s, e, [s[e.h] EXCEPT !.vt = TRUE, !.t = e.a])
    \* seconds: e.a is the same time in microseconds
    [] e.op = "seconds" -> To(s, e, [s[e.h] EXCEPT !.vt = TRUE, !.t = e.a])
    [] e.op = "frame" -> To(s, e, [s[e.h] EXCEPT !.vf = TRUE, !.f = e.a])
    [] e.op = "invalid" -> To(s, e, [s[e.h] EXCEPT !.vt = FALSE, !.vf = FALSE])
    [] e.op = "domain" -> To(s, e, [s[e.h] EXCEPT !.d = e.a])
    [] e.op = "q" -> To(s, e, s[e.h])
    [] e.op = "cmp" -> LET r == Relations(s[e.h], s[e.g]) IN Res([eq |-> e.eq, ne |-> e.ne, lt |-> e.lt, gt |-> e.gt] = r, s, r)
    [] e.op = "print" -> Res(Printed(s[e.h], e.p), s, <<Before(s[e.h]), After(s[e.h])>>)
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
