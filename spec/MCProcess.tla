----------------------------- MODULE MCProcess -----------------------------
(* C31: a process object with every choice of a few settings and commands,    *)
(* and every short sequence of calls on it, with every outcome left open.     *)
EXTENDS Process, Json, CSV, IOUtils
CONSTANTS Depth, Some3
VARIABLES s, h, seen, was, drop
vars == <<s, h, seen, was, drop>>
R1(acts) == [kind |-> "run", acts |-> acts]
Plans == {<<R1(<<"o=ab", "e=c">>)>>, <<R1(<<"o=a", "k=9">>)>>, <<R1(<<"o=ab", "hang">>)>>, <<R1(<<"o=ab", "e=c">>), R1(<<"cat", "x=2">>)>>, <<R1(<<"e=c", "hang">>), R1(<<"o=ab", "x=3">>)>>,
          <<R1(<<"o=a", "kid", "hang">>), R1(<<"cat">>)>>, <<[kind |-> "missing", acts |-> <<>>]>>} \cup (IF Some3 THEN {<<R1(<<"o=a">>), R1(<<"cat", "e=b", "hang">>), R1(<<"drain", "x=1">>)>>, <<R1(<<"close", "hang">>)>>} ELSE {})
Opts == {{}, {"group"}, {"merge"}, {"detach"}, {"group", "merge"}}
Begin(cs, os, t, f, e2) ==
  <<<<"new", "0">>, <<"shared", "0", "0", "0">>>> \o (IF f THEN <<<<"file", "0", "1", "f1_0">>>> ELSE <<>>) \o (IF e2 THEN <<<<"native", "0", "2", "1">>>> ELSE <<>>)
  \o LET RECURSIVE opt(_)
         opt(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<<<"opt", "0", x, "1">>>> \o opt(S \ {x})
     IN opt(os)
  \o [i \in 1..Len(cs) |-> <<"cmd", "0", IF i = 1 THEN "set" ELSE "add", cs[i].kind>> \o cs[i].acts] \o (IF t = 0 THEN <<>> ELSE <<<<"tmo", "0", ToString(t)>>>>) \o <<<<"exec", "0", "0">>>>
Obj0(cs, os, t, f, e2) == [NewObj EXCEPT !.cmds = cs, !.tmo = t, !.opt = [x \in DOMAIN @ |-> x \in os],
                                         !.m = [@ EXCEPT ![0] = [k |-> "own", f |-> ""], ![1] = IF f THEN [k |-> "file", f |-> "f1_0"] ELSE @, ![2] = IF e2 THEN [k |-> "native", f |-> ""] ELSE @]]
Started(o) == CHOOSE q \in Exec(MInit, o, [nofork |-> 0, natives |-> "cccc"]) : TRUE
None0 == [o |-> "", e |-> ""]
\* a detached command that cannot be started is not awaited
Init == \E cs \in Plans, os \in Opts, t \in {0, 200}, f \in BOOLEAN, e2 \in BOOLEAN :
          /\ "detach" \in os => cs[1].kind = "run"
          /\ LET o == Started(Obj0(cs, os, t, f, e2)) IN s = [MInit EXCEPT !.o = (0 :> o)] /\ was = o
          /\ h = Begin(cs, os, t, f, e2) /\ seen = None0 /\ drop = FALSE
Obj == s.o[0]
\* what is decided by the calls alone, so that every outcome may go on with the same ones
Unending(r) == r.hang /\ r.tmo = 0 /\ ~r.killed /\ ~r.intr
Legal(op) ==
  LET o == Obj
      r == o.run
  IN CASE op[1] \in {"read", "wait"} -> op[3] # "none" \/ ~r.on \/ ~Unending(r)
       [] op[1] = "readall" -> ~r.on \/ ~Unending(r)
       [] op[1] = "settle" -> ~r.on \/ (~r.hang /\ ~r.detached)
       [] op[1] = "intr" -> o.opt["group"] /\ (~r.on \/ (r.hang /\ ~r.detached))
       [] op[1] = "del" -> FALSE
       [] OTHER -> TRUE
Ops == {<<"read", "0", "0">>, <<"read", "0", "none">>, <<"wait", "0", "0">>, <<"wait", "0", "none">>, <<"readall", "0">>, <<"kill", "0">>, <<"intr", "0">>, <<"disown", "0">>, <<"settle", "0">>, <<"pass", "0", "300">>}
\* what may be seen of one writer, by the positions of several
Next1(ws, ps) == UNION {UNION {{SubSeq(ws[j], p[j] + 1, k) : k \in (p[j] + 1)..Len(ws[j])} : j \in 1..Len(ws)} : p \in ps}
Lim1(op) == IF Len(op) > 2 THEN op[3] ELSE "none"
Lefts(op) == IF Lim1(op) = "none" THEN {""} ELSE IF Lim1(op) = "0" THEN {"zero"} ELSE {"zero", "some"}
Texts(ws, ps) == {""} \cup Next1(ws, ps) \cup {Concat([j \in 1..Len(ws) |-> From(ws[j], p[j] + 1)]) : p \in ps}
Events(op) ==
  LET r == Obj.run
      w == IF r.on THEN r.ws ELSE <<<<>>, <<>>>>
      p == IF r.on THEN r.ps ELSE <<Zero(<<>>), Zero(<<>>)>>
  IN CASE op[1] = "read" -> UNION {{[op |-> "read", lim |-> Lim1(op), left |-> l, r |-> "out", data |-> d] : d \in Next1(w[1], p[1])} \cup {[op |-> "read", lim |-> Lim1(op), left |-> l, r |-> "err", data |-> d] : d \in Next1(w[2], p[2])}
                                    \cup {[op |-> "read", lim |-> Lim1(op), left |-> l, r |-> x, data |-> ""] : x \in {"none", "timeout"}} : l \in Lefts(op)}
       [] op[1] = "readall" -> {[op |-> "readall", r |-> "none", out |-> a, err |-> b] : a \in Texts(w[1], p[1]), b \in Texts(w[2], p[2])}
       [] op[1] = "wait" -> {[op |-> "wait", lim |-> Lim1(op), left |-> l, r |-> x, st |-> "Exited", v |-> 0] : x \in {0, 1}, l \in Lefts(op)}
       [] OTHER -> {[op |-> op[1]]}
After(op, e) == CASE op[1] = "pass" -> {Obj}
                  [] op[1] = "wait" -> Wait(s, Obj, e)
                  [] OTHER -> OfObj(s, Obj, e)
Outcomes(op) == UNION {{[e |-> e, q |-> q] : q \in After(op, e)} : e \in Events(op)}
Do(op) == \E x \in Outcomes(op) :
            /\ s' = [s EXCEPT !.o[0] = x.q, !.now = IF op[1] = "pass" THEN @ + 300 ELSE @]
            /\ h' = Append(h, op) /\ was' = Obj
            /\ seen' = CASE op[1] = "read" -> IF x.e.r = "out" THEN [seen EXCEPT !.o = @ \o x.e.data] ELSE IF x.e.r = "err" THEN [seen EXCEPT !.e = @ \o x.e.data] ELSE seen
                         [] op[1] = "readall" -> [o |-> seen.o \o x.e.out, e |-> seen.e \o x.e.err]
                         [] OTHER -> seen
            /\ drop' = (drop \/ op[1] = "wait")
Base0 == CHOOSE i \in 1..Len(h) : h[i][1] = "exec"
Next == Len(h) < Base0 + Depth /\ \E op \in Ops : (Legal(op) = TRUE) /\ Do(op)
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------ what is relied on *)
\* no call is left without an outcome
Answers == \A op \in Ops : Legal(op) => Outcomes(op) # {}
\* nothing is made up, nothing is lost: at the end by itself all there was has been seen
Total(ws) == IF Len(ws) = 0 THEN 0 ELSE IF Len(ws) = 1 THEN Len(ws[1]) ELSE IF Len(ws) = 2 THEN Len(ws[1]) + Len(ws[2]) ELSE Len(ws[1]) + Len(ws[2]) + Len(ws[3])
NotMore == Obj.run.on /\ ~(Obj.run.trunc /\ Obj.run.n > 1) => Len(seen.o) <= Total(Obj.run.ws[1]) /\ Len(seen.e) <= Total(Obj.run.ws[2])
Whole == Obj.run.on /\ Obj.run.fin /\ ~Obj.run.intr /\ ~drop => Len(seen.o) = Total(Obj.run.ws[1]) /\ Len(seen.e) = Total(Obj.run.ws[2])
InOrder == Obj.run.on /\ ~drop /\ Len(Obj.run.ws[1]) = 1 /\ ~Obj.run.intr => StartsWith(Obj.run.ws[1][1], seen.o)
\* the states follow each other: what has ended stays as it is
Ended(d) == d.st \in {"Exited", "Exception", "Killed", "Expired", "Error", "Disowned"}
Order == /\ Ended(was.det) => Obj.det = was.det
         /\ Obj.det.st \in {"Executing", "Exited", "Exception", "Killed", "Expired", "Error", "Disowned"}
\* each end has its reason
Reason == LET d == Obj.det
              r == Obj.run
          IN CASE d.st = "Killed" -> r.killed
               [] d.st = "Expired" -> r.tmo > 0 /\ (r.killed => r.expired)
               [] d.st = "Disowned" -> r.detached
               [] d.st = "Error" -> ~r.on
               [] d.st = "Exited" -> r.detached \/ (IF r.intr THEN r.sum.endEof = [k |-> "exit", n |-> d.v] \/ r.sum.end = [k |-> "exit", n |-> d.v] ELSE r.sum.end = [k |-> "exit", n |-> d.v])
               [] d.st = "Exception" -> r.intr \/ r.sum.end = [k |-> "sig", n |-> d.v]
               [] OTHER -> TRUE
\* killed for good: nothing is read afterwards, nothing is left
Finality == Obj.run.on /\ Obj.run.killed => AliveN(Obj) = 0 /\ (was.run.on /\ was.run.killed => Obj.run.ps = was.run.ps)
\* a process that goes on for ever ends as expired only when its time is up
NotEarly == Obj.det.st = "Expired" /\ ~Obj.run.fin => Obj.run.hang \/ Deadline(Obj.run) < INF
\* asked at the end: the state is settled by then
Tail2(o) == (IF ~o.run.on \/ ~Unending(o.run) THEN <<>> ELSE <<<<"kill", "0">>>>) \o <<<<"wait", "0", "none">>, <<"state", "0">>, <<"idle", "0">>>>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(h') = Base0 + Depth THEN CSVWrite("%1$s", <<ToJson(h' \o Tail2(s'.o[0]))>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
