------------------------------- MODULE Timers -------------------------------
(* Interval timers.  Each operation happens between two readings of the      *)
(* clock that the timer measures, e.b and e.a (microseconds): the instants   *)
(* at which a timer was started and stopped are known as intervals.          *)
EXTENDS StrUtil

MInit == <<>>
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
\* st: "new", "run" or "stop"; from: the interval of the start; to: the possible intervals of the stop;
\* least: the elapsed time may not be less; frozen: the elapsed time reported since it was stopped (-1: none)
New == [st |-> "new", from |-> <<0, 0>>, to |-> {}, least |-> 0, frozen |-> -1]
\* allowed for the cost and the resolution of the clocks
Tol(x) == 500 + x \div 100
Within(v, lo, hi) == v >= lo - Tol(IF lo < 0 THEN 0 ELSE lo) /\ v <= hi + Tol(hi) /\ v >= 0
Started(e) == [New EXCEPT !.st = "run", !.from = <<e.b, e.a>>]
\* what stopping a timer that is not running does to its elapsed time is not specified beyond the two readings
Stopped(x, e) == [x EXCEPT !.st = IF x.st = "new" THEN "odd" ELSE IF x.st = "odd" THEN "odd" ELSE "stop", !.to = (IF x.st = "stop" THEN @ ELSE {}) \cup {<<e.b, e.a>>},
                           !.frozen = -1]
Ok(x, e) == CASE x.st = "new" -> e.us = 0
              [] x.st = "run" -> Within(e.us, e.b - x.from[2], e.a - x.from[1]) /\ e.us >= x.least
              [] x.st = "stop" -> IF x.frozen >= 0 THEN e.us = x.frozen ELSE e.us >= x.least /\ \E t \in x.to : Within(e.us, t[1] - x.from[2], t[2] - x.from[1])
              [] OTHER -> TRUE
Read(x, e) == CASE x.st = "run" -> [x EXCEPT !.least = e.us] [] x.st = "stop" -> [x EXCEPT !.frozen = e.us] [] OTHER -> x
Active(x) == x.st = "run"
To(s, e, x) == Res(e.active = Active(x), (e.h :> x) @@ s, x)
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, MInit, "")
    [] e.op = "new" -> To(s, e, New)
    [] e.op = "start" -> To(s, e, Started(e))
    [] e.op = "stop" -> To(s, e, Stopped(s[e.h], e))
    [] e.op = "elapsed" -> IF Ok(s[e.h], e) /\ e.active = Active(s[e.h]) THEN Res(TRUE, [s EXCEPT ![e.h] = Read(s[e.h], e)], "") ELSE Res(FALSE, s, s[e.h])
    [] e.op = "pass" -> Res(TRUE, s, "")
    \* a scoped timer: all that it printed, with # for the number; e.b..e.c is its construction, e.d..e.a its destruction
    [] e.op = "scoped" -> LET t == (IF e.title = "" THEN "" ELSE e.title \o " - ") \o "elapsed time: # sec\n"
                          IN Res(e.text = t /\ Within(e.us, e.d - e.c, e.a - e.b), s, t)
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
