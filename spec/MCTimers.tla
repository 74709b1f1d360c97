------------------------------ MODULE MCTimers ------------------------------
(* C29: a timer that keeps an active flag and the readings of a start and a  *)
(* stop has the elapsed times of the specification, on a discrete clock.     *)
EXTENDS Timers, Json, CSV, IOUtils
CONSTANTS MaxOps
VARIABLES s, now, impl, shown, hist
Ev(op) == [op |-> op, h |-> "t", b |-> now * 1000000, a |-> now * 1000000, us |-> 0, active |-> FALSE]
Elapsed == IF impl.active THEN now - impl.start ELSE impl.end - impl.start
Init == s = ("t" :> New) /\ now = 1 /\ impl = [active |-> FALSE, start |-> 0, end |-> 0] /\ shown = [v |-> 0, st |-> "new"] /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
Read1 == LET e == [Ev("elapsed") EXCEPT !.us = Elapsed * 1000000, !.active = impl.active] IN s' = Step(s, e).st
Next == /\ Len(hist) < MaxOps
        /\ \/ s' = Step(s, Ev("start")).st /\ impl' = [impl EXCEPT !.active = TRUE, !.start = now] /\ Log(<<"start", "t">>) /\ UNCHANGED <<now, shown>>
           \/ s["t"].st \in {"run", "stop"} /\ s' = Step(s, Ev("stop")).st /\ impl' = [impl EXCEPT !.active = FALSE, !.end = now] /\ Log(<<"stop", "t">>) /\ UNCHANGED <<now, shown>>
           \/ Read1 /\ shown' = [v |-> Elapsed, st |-> s["t"].st] /\ Log(<<"elapsed", "t">>) /\ UNCHANGED <<now, impl>>
           \/ now' = now + 1 /\ Log(<<"pass", "t", "3">>) /\ UNCHANGED <<s, impl, shown>>
Spec == Init /\ [][Next]_<<s, now, impl, shown, hist>>
Agrees == LET e == [Ev("elapsed") EXCEPT !.us = Elapsed * 1000000, !.active = impl.active] IN Ok(s["t"], e) /\ impl.active = Active(s["t"])
ActiveExactly == impl.active = (\E i \in 1..Len(hist) : hist[i][1] = "start" /\ \A j \in i + 1..Len(hist) : hist[j][1] # "stop")
Script(q) == << <<"new", "t", "wall">> >> \o q \o << <<"elapsed", "t">>, <<"elapsed", "t">> >>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(hist') = MaxOps THEN CSVWrite("%1$s", <<ToJson(Script(hist'))>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
