------------------------------ MODULE Process ------------------------------
(* Running pipelines of processes: settings, execution, reading what they    *)
(* write, waiting, timeouts, killing, interrupting, disowning.               *)
(* A command is a list of actions (harness/proc_child.c).  What is read is    *)
(* an interleaving of what the writers of a pipe wrote, each of them in       *)
(* order; how much one call returns and what the scheduler did is left open.  *)
EXTENDS StrUtil

INF == 2000000000
Base == "base"
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]

(* ------------------------------------------------ what a command does *)
RECURSIVE Pat(_)
Pat(n) == IF n <= 20 THEN SubSeq("01234567890123456789", 1, n)
          ELSE LET h == Pat(((n \div 2) \div 10) * 10)
                   t == h \o h
               IN t \o Pat(n - Len(t))
Is(a, p) == StartsWith(a, p)
Num(a) == StrToInt(From(a, 3))
\* acc: o, e: written to standard output, standard error; m: to both; in: what is left of the input, eof: whether it ends
RECURSIVE RunFrom(_, _, _, _)
Out(acc, t) == IF acc.closed THEN acc ELSE [acc EXCEPT !.o = @ \o t, !.m = @ \o t]
Err(acc, t) == IF acc.closed THEN acc ELSE [acc EXCEPT !.e = @ \o t, !.m = @ \o t]
End(acc, k, n) == [acc EXCEPT !.end = [k |-> k, n |-> n]]
Reading(acc) == [acc EXCEPT !.in = "", !.end = IF acc.eof THEN @ ELSE [k |-> "hang", n |-> 0]]
RunFrom(acts, i, env, acc) ==
  IF acc.end.k # "go" THEN acc
  ELSE IF i > Len(acts) THEN End(acc, "exit", 0)
  ELSE LET a == acts[i]
           go(x) == RunFrom(acts, i + 1, env, x)
       IN CASE Is(a, "o=") -> go(Out(acc, From(a, 3)))
            [] Is(a, "e=") -> go(Err(acc, From(a, 3)))
            [] Is(a, "O=") -> go(Out(acc, Pat(Num(a))))
            [] Is(a, "E=") -> go(Err(acc, Pat(Num(a))))
            [] a = "cat" -> go(Reading(Out(acc, acc.in)))
            [] a = "drain" -> go(Reading(acc))
            [] a = "cwd" -> go(Out(acc, env.cwd))
            [] a = "fds" -> go(Out(acc, env.fds))
            [] a = "args" -> End(Out(acc, Concat([j \in 1..Len(acts) - i |-> acts[i + j] \o "|"])), "exit", 0)
            [] Is(a, "x=") -> End(acc, "exit", Num(a))
            [] Is(a, "k=") -> End(acc, "sig", Num(a))
            [] a = "hang" -> End(acc, "hang", 0)
            [] Is(a, "nap=") -> go(acc)
            [] a = "close" -> go([acc EXCEPT !.closed = TRUE])
            [] a = "kid" -> go([acc EXCEPT !.kids = @ + 1])
            [] a = "brood" -> go([acc EXCEPT !.kids = @ + 2])
            [] OTHER -> End(acc, "exit", 99)
Acc0(in, eof) == [o |-> "", e |-> "", m |-> "", in |-> in, eof |-> eof, closed |-> FALSE, kids |-> 0, end |-> [k |-> "go", n |-> 0]]
\* the pipeline: results of the commands, in order; all: as if every command before came to an end at some time
RECURSIVE Pipeline(_, _, _, _, _, _)
Pipeline(cmds, in, eof, env, first, all) ==
  IF cmds = <<>> THEN <<>>
  ELSE LET r == RunFrom(Head(cmds).acts, 1, [cwd |-> env.cwd, fds |-> IF first THEN env.fds ELSE "0,1,2"], Acc0(in, eof))
       IN <<r>> \o Pipeline(Tail(cmds), r.o, all \/ r.end.k # "hang" \/ r.closed, env, FALSE, all)
\* the texts of those writers that ever write
Some(full, ss) == LET RECURSIVE from(_)
                      from(i) == IF i > Len(full) THEN <<>> ELSE (IF full[i] = "" THEN <<>> ELSE <<ss[i]>>) \o from(i + 1)
                  IN from(1)
RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumTo(q, n - 1)
Summary(cmds, in, env, merge) ==
  LET rs == Pipeline(cmds, in, TRUE, env, TRUE, FALSE)
      fs == Pipeline(cmds, in, TRUE, env, TRUE, TRUE)
      n == Len(rs)
      outs(x) == IF merge THEN [i \in 1..n |-> IF i = n THEN x[n].m ELSE x[i].e] ELSE <<x[n].o>>
      errs(x) == IF merge THEN <<>> ELSE [i \in 1..n |-> x[i].e]
  IN [out |-> Some(outs(fs), outs(rs)), err |-> Some(errs(fs), errs(rs)),
      \* what is written at most, when commands are stopped one after the other
      outF |-> Some(outs(fs), outs(fs)), errF |-> Some(errs(fs), errs(fs)),
      hang |-> \E i \in 1..n : rs[i].end.k = "hang",
      alive |-> Cardinality({i \in 1..n : rs[i].end.k = "hang"}) + SumTo([i \in 1..n |-> rs[i].kids], n),
      lastHang |-> rs[n].end.k = "hang",
      end |-> rs[n].end,
      \* how the last one ends when those before it are gone
      endEof |-> fs[n].end]

(* ------------------------------------------------ interleavings *)
\* positions in each of the writers' texts
Zero(ws) == {[j \in 1..Len(ws) |-> 0]}
AllOf(ws) == [j \in 1..Len(ws) |-> Len(ws[j])]
RECURSIVE AdvChars(_, _, _)
AdvChars(ws, ps, d) ==
  IF d = "" \/ ps = {} THEN ps
  ELSE AdvChars(ws, UNION {{[p EXCEPT ![j] = @ + 1] : j \in {k \in 1..Len(ws) : p[k] < Len(ws[k]) /\ Ch(ws[k], p[k] + 1) = Ch(d, 1)}} : p \in ps}, From(d, 2))
Adv(ws, ps, d) ==
  IF d = "" THEN ps
  ELSE IF Len(ws) = 0 THEN {}
  ELSE IF Len(ws) = 1 THEN {<<p[1] + Len(d)>> : p \in {q \in ps : q[1] + Len(d) <= Len(ws[1]) /\ SubSeq(ws[1], q[1] + 1, q[1] + Len(d)) = d}}
  ELSE AdvChars(ws, ps, d)
\* (when a command of several was cut short, what the next made of it is left open)
\* any amount may have been dropped
Later(ws, ps) == UNION {{q \in [1..Len(ws) -> 0..(IF Len(ws) = 0 THEN 0 ELSE CHOOSE m \in {Len(ws[j]) : j \in 1..Len(ws)} : \A j \in 1..Len(ws) : Len(ws[j]) <= m)] :
                            \A j \in 1..Len(ws) : q[j] >= p[j] /\ q[j] <= Len(ws[j])} : p \in ps}
Done(ws, ps) == AllOf(ws) \in ps

(* ------------------------------------------------ objects *)
NoRun == [on |-> FALSE]
D0(st) == [st |-> st, v |-> -1, exc |-> "", str |-> "", err |-> ""]
NewObj == [cmds |-> <<>>, tmo |-> 0, wd |-> "", m |-> [k \in 0..2 |-> [k |-> IF k = 0 THEN "shared" ELSE "own", f |-> ""]], used |-> [k \in 0..2 |-> FALSE],
           opt |-> [o \in {"detach", "merge", "verbatim", "group"} |-> FALSE], det |-> D0("Starting"), run |-> NoRun]
ErrD(t) == [D0("Error") EXCEPT !.err = t]
ENOENT == "No such file or directory"
SigText(n) == CASE n = 11 -> <<"Fault", "Segmentation fault">> [] n = 7 -> <<"Fault", "Bus error">> [] n = 8 -> <<"Numerical", "Floating-point exception">>
                [] n = 4 -> <<"Illegal", "Illegal instruction">> [] n = 2 -> <<"Interrupt", "User interrupt">> [] n = 6 -> <<"Other", "Child aborted">>
                [] n = 9 -> <<"Other", "Child killed">> [] n = 15 -> <<"Other", "Child terminated">> [] n = 1 -> <<"Other", "SIGHUP">>
                [] n = 3 -> <<"Other", "SIGQUIT">> [] n = 10 -> <<"Other", "SIGUSR1">> [] n = 12 -> <<"Other", "SIGUSR2">> [] n = 13 -> <<"Other", "SIGPIPE">>
                [] n = 14 -> <<"Other", "SIGALRM">> [] n = 5 -> <<"Other", "SIGTRAP">> [] OTHER -> <<"Other", "Signal " \o ToString(n)>>
ExitD(end) == IF end.k = "exit" THEN [D0("Exited") EXCEPT !.v = end.n] ELSE [D0("Exception") EXCEPT !.exc = SigText(end.n)[1], !.str = SigText(end.n)[2], !.v = end.n]
Det(e) == [st |-> e.st, v |-> IF e.st = "Exited" THEN e.v ELSE IF e.st = "Exception" THEN e.sig ELSE -1, exc |-> IF e.st = "Exception" THEN e.exc ELSE "",
           str |-> IF e.st = "Exception" THEN e.str ELSE "", err |-> IF e.st = "Error" THEN e.msg ELSE ""]
Executing(o) == o.det.st = "Executing"

\* how the run may end on its own (or because it was interrupted)
Finals(r) == (IF r.hang THEN {} ELSE {ExitD(r.sum.end)})
             \cup (IF r.intr /\ ~r.intrLate THEN {ExitD([k |-> "sig", n |-> 2])} \cup (IF r.sum.endEof.k = "hang" THEN {} ELSE {ExitD(r.sum.endEof)}) ELSE {})
Live(r) == ~r.killed /\ ~r.expired /\ ~r.fin
Deadline(r) == IF r.tmo > 0 THEN r.start + r.tmo ELSE INF
Lim(e) == IF e.lim = "none" THEN INF ELSE StrToInt(e.lim)
User(s, e) == IF e.lim = "none" THEN INF ELSE s.now + (IF Lim(e) < 0 THEN 0 ELSE Lim(e))
Ends(r) == ~r.hang \/ (r.intr /\ ~r.intrLate)
MayFinish(r) == Ends(r) /\ (r.trunc \/ (Done(r.ws[1], r.ps[1]) /\ Done(r.ws[2], r.ps[2])))
\* the timeout of the process ends a call with this limit
MayExpire(s, r, user) == Deadline(r) < INF /\ Deadline(r) <= user /\ Deadline(r) - s.now < 10000 /\ (~r.settled \/ Deadline(r) < s.now)
MayTimeOut(s, r, user) == user < INF /\ user <= Deadline(r) /\ ~r.settled /\ (r.hang \/ user - s.now < 10000)
Left(s, e) == e.left \in (IF e.lim = "none" THEN {""} ELSE IF Lim(e) <= 0 THEN {"zero"} ELSE {"zero", "some"})
Expired(r) == [r EXCEPT !.expired = TRUE]
Fin(r) == [r EXCEPT !.fin = TRUE]

FileThere(wd, f) == IF wd = "" THEN f \in {"in1"} ELSE f \in {"in2"}
InText(m) == CASE m.k = "shared" -> "shared-in" [] m.k = "native" -> "native-in" [] m.k = "own" -> "" [] m.f = "in1" -> "file-in" [] OTHER -> "deep-in"
\* the first of the commands that cannot be started
BadAt(o, nofork) == {i \in 1..Len(o.cmds) : o.cmds[i].kind # "run" \/ i = nofork}
ExecErr(o, e) ==
  IF o.wd = "nodir" THEN ENOENT
  ELSE IF o.m[0].k = "file" /\ ~FileThere(o.wd, o.m[0].f) THEN ENOENT
  ELSE IF \E k \in 1..2 : o.m[k].k = "file" /\ StartsWith(o.m[k].f, "nodir/") THEN ENOENT
  ELSE IF BadAt(o, e.nofork) = {} THEN ""
  ELSE LET i == CHOOSE j \in BadAt(o, e.nofork) : \A h \in BadAt(o, e.nofork) : j <= h
       IN IF i = e.nofork THEN "Resource temporarily unavailable" ELSE IF o.cmds[i].kind = "missing" THEN ENOENT ELSE "Permission denied"
\* the exit of detached processes is not waited for, only the end of what they write
Holds(o, sum) == IF o.opt["merge"] THEN o.m[1].k = "own" /\ sum.hang ELSE (o.m[1].k = "own" /\ sum.lastHang) \/ (o.m[2].k = "own" /\ sum.hang)
ExecUse(o) == [k \in 0..2 |-> o.used[k] \/ o.m[k].k = "native"]
Exec(s, o, e) ==
  IF Executing(o) THEN {o}
  ELSE IF o.cmds = <<>> THEN {[o EXCEPT !.det = ErrD("No command"), !.used = ExecUse(o)]}
  ELSE IF \E k \in 0..2 : o.m[k].k = "native" /\ o.used[k] THEN {}
  ELSE LET err == ExecErr(o, e)
           u == [o EXCEPT !.used = ExecUse(o)]
           sum == Summary(o.cmds, InText(o.m[0]), [cwd |-> IF o.wd = "" THEN Base ELSE "d1", fds |-> IF o.m[0].k = "own" THEN "1,2" ELSE "0,1,2"], o.opt["merge"])
           ws == <<IF o.m[1].k = "own" THEN sum.out ELSE <<>>, IF o.m[2].k = "own" THEN sum.err ELSE <<>>>>
       IN IF err # "" THEN {[u EXCEPT !.det = ErrD(err), !.run = NoRun]}
          ELSE IF \E k \in 0..2 : o.m[k].k = "native" /\ \E j \in 1..Len(e.natives) : Ch(e.natives, j) # "c" THEN {}
          ELSE {[u EXCEPT !.det = D0("Executing"),
                          !.run = [on |-> TRUE, sum |-> sum, hang |-> IF o.opt["detach"] THEN Holds(o, sum) ELSE sum.hang, ws |-> ws, ps |-> <<Zero(ws[1]), Zero(ws[2])>>, start |-> s.now, tmo |-> o.tmo,
                                   detached |-> o.opt["detach"], settled |-> FALSE, trunc |-> FALSE, killed |-> FALSE, expired |-> FALSE, fin |-> FALSE, intr |-> FALSE,
                                   intrLate |-> FALSE, n |-> Len(o.cmds), m |-> o.m, wd |-> o.wd, taken |-> {}]]}
Run(o, r) == [o EXCEPT !.run = r]
Read(s, o, e) ==
  LET r == o.run
      user == User(s, e)
  IN IF ~Executing(o) \/ ~Live(r) THEN IF e.r = "none" /\ e.data = "" THEN {o} ELSE {}
     ELSE IF ~Left(s, e) THEN {}
     ELSE CASE e.r \in {"out", "err"} ->
                 LET k == IF e.r = "out" THEN 1 ELSE 2
                     q == Adv(r.ws[k], r.ps[k], e.data)
                 IN IF e.data # "" /\ r.trunc /\ r.n > 1 THEN {o}
                    ELSE IF e.data # "" /\ q # {} THEN {Run(o, [r EXCEPT !.ps[k] = q])} ELSE {}
            [] e.r = "none" -> (IF MayFinish(r) THEN {Run(o, Fin(r))} ELSE IF MayExpire(s, r, user) THEN {Run(o, Expired(r))} ELSE {})
            \* ended by itself or by its timeout: not told apart yet
            [] e.r = "timeout" -> IF MayTimeOut(s, r, user) /\ (s.frozen \/ e.left = "zero") THEN {o} ELSE {}
            [] OTHER -> {}
ReadAll(s, o, e) ==
  LET r == o.run
      q == IF r.on /\ r.trunc /\ r.n > 1 THEN r ELSE [r EXCEPT !.ps = <<Adv(r.ws[1], r.ps[1], e.out), Adv(r.ws[2], r.ps[2], e.err)>>]
  IN IF ~Executing(o) \/ ~Live(r) THEN IF e.r = "none" /\ e.out = "" /\ e.err = "" THEN {o} ELSE {}
     ELSE IF e.r # "none" \/ q.ps[1] = {} \/ q.ps[2] = {} THEN {}
     ELSE IF MayFinish(q) THEN {Run(o, Fin(q))} ELSE IF MayExpire(s, r, INF) THEN {Run(o, Expired(q))} ELSE {}
End1(o, d) == [o EXCEPT !.det = d]
Wait(s, o, e) ==
  LET r == o.run
      user == User(s, e)
      late == Deadline(r) < INF
  IN IF ~Executing(o) THEN IF e.r = 1 THEN {o} ELSE {}
     ELSE IF ~Live(r)
     THEN IF e.r # 1 THEN {}
          ELSE {End1(IF d.st = "Expired" THEN Run(o, Expired(r)) ELSE o, d) : d \in (IF r.killed THEN {D0("Killed")} ELSE {}) \cup (IF r.expired THEN {D0("Expired")} ELSE {})
                                   \* finished, or at about the time it would have expired
                                   \cup (IF r.detached /\ ~r.expired /\ ~r.killed THEN {[D0("Exited") EXCEPT !.v = Det(e).v]} ELSE {})
                                   \cup (IF r.fin /\ ~r.killed /\ ~r.detached THEN Finals(r) ELSE {})
                                   \cup (IF r.fin /\ late /\ ~r.killed THEN {D0("Expired")} ELSE {})}
     ELSE IF ~Left(s, e) THEN {}
     ELSE IF e.r = 0 THEN IF MayTimeOut(s, r, user) /\ (s.frozen \/ e.left = "zero") THEN {Run(o, [r EXCEPT !.ps = <<Later(r.ws[1], r.ps[1]), Later(r.ws[2], r.ps[2])>>])} ELSE {}
     ELSE IF e.r # 1 THEN {}
     ELSE (IF Ends(r) THEN {End1(o, d) : d \in IF r.detached THEN {[D0("Exited") EXCEPT !.v = Det(e).v]} ELSE Finals(r)} ELSE {})
          \cup (IF MayExpire(s, r, user) THEN {End1(Run(o, Expired(r)), D0("Expired"))} ELSE {})
Kill(o) == IF Executing(o) THEN {Run(o, [o.run EXCEPT !.killed = TRUE])} ELSE {o}
\* without a process group of its own the caller is interrupted: not done here
Intr(o) == IF ~Executing(o) \/ o.run.killed \/ o.run.expired THEN {o}
           ELSE IF ~o.opt["group"] THEN {}
           ELSE {Run(o, [o.run EXCEPT !.intr = TRUE, !.intrLate = IF o.run.intr THEN @ ELSE o.run.settled \/ o.run.fin, !.trunc = @ \/ ~(o.run.settled \/ o.run.fin),
                                  !.ws = IF o.run.settled \/ o.run.fin THEN @ ELSE <<IF @[1] = <<>> THEN @[1] ELSE o.run.sum.outF, IF @[2] = <<>> THEN @[2] ELSE o.run.sum.errF>>])}
\* one that has come to its end may have expired: it is not told apart before it is waited for
Disown(o) == IF Executing(o) /\ o.run.detached /\ ~o.run.killed /\ ~o.run.expired
             THEN {End1(o, D0("Disowned"))} \cup (IF o.run.fin /\ Deadline(o.run) < INF THEN {Run(o, Expired(o.run))} ELSE {}) ELSE {o}
\* deleting waits for the end; one that does not end is not deleted here
Del(s, o) == IF ~Executing(o) \/ o.run.detached \/ ~Live(o.run) \/ Ends(o.run) THEN {[o EXCEPT !.det = D0("gone")]}
             ELSE IF Deadline(o.run) < INF THEN {[o EXCEPT !.det = D0("gone"), !.run = Expired(@)]} ELSE {}
\* processes that are left
AliveN(o) == LET r == o.run IN IF ~r.on THEN 0 ELSE IF r.killed \/ r.expired \/ r.intr THEN 0 ELSE IF r.sum.hang THEN r.sum.alive ELSE 0
Content(o, e) ==
  LET r == o.run
      cut == r.trunc \/ r.killed \/ r.expired
      ws == IF e.pipe = 1 THEN IF cut THEN r.sum.outF ELSE r.sum.out ELSE IF cut THEN r.sum.errF ELSE r.sum.err
      q == Adv(ws, Zero(ws), e.c)
  IN IF ~r.on \/ r.detached \/ r.m[e.pipe] # o.m[e.pipe] \/ r.wd # o.wd \/ r.m[e.pipe].k # e.mode \/ e.pipe \in r.taken THEN {}
     ELSE IF (cut /\ r.n > 1) \/ (q # {} /\ (cut \/ Done(ws, q))) THEN {Run(o, [r EXCEPT !.taken = @ \cup (IF e.mode = "native" THEN {e.pipe} ELSE {})])} ELSE {}

SetMode(o, k, m) == [o EXCEPT !.m[k] = m, !.used[k] = FALSE]
Own == [k |-> "own", f |-> ""]
OfObj(s, o, e) ==
  CASE e.op = "del" -> Del(s, o)
    [] e.op = "cmd" -> IF Executing(o) THEN {}
                       ELSE LET c == [kind |-> e.kind, acts |-> e.acts]
                            IN IF e.how = "clear" THEN IF e.r = 1 THEN {[o EXCEPT !.cmds = <<>>]} ELSE {}
                               ELSE IF e.kind = "empty" THEN IF e.r = 0 THEN {[o EXCEPT !.cmds = IF e.how = "set" THEN <<>> ELSE @]} ELSE {}
                               ELSE IF e.r = 1 THEN {[o EXCEPT !.cmds = (IF e.how = "set" THEN <<>> ELSE @) \o <<c>>]} ELSE {}
    [] e.op = "tmo" -> IF Executing(o) THEN {} ELSE {[o EXCEPT !.tmo = IF e.ms < 0 THEN 0 ELSE e.ms]}
    [] e.op = "wd" -> IF e.r = 1 THEN {[o EXCEPT !.wd = e.dir]} ELSE {}
    [] e.op = "file" -> IF e.r # 1 THEN {} ELSE IF e.f # "" THEN {SetMode(o, e.pipe, [k |-> "file", f |-> e.f])} ELSE IF o.m[e.pipe].k = "file" THEN {SetMode(o, e.pipe, Own)} ELSE {o}
    [] e.op = "shared" -> IF e.on THEN {SetMode(o, e.pipe, [k |-> "shared", f |-> ""])} ELSE IF o.m[e.pipe].k = "shared" THEN {SetMode(o, e.pipe, Own)} ELSE {o}
    [] e.op = "native" -> IF e.on THEN {SetMode(o, e.pipe, [k |-> "native", f |-> ""])} ELSE IF o.m[e.pipe].k = "native" THEN {SetMode(o, e.pipe, Own)} ELSE {o}
    [] e.op = "opt" -> IF e.get # e.on \/ (Executing(o) /\ e.o = "group") THEN {} ELSE {[o EXCEPT !.opt[e.o] = e.on]}
    [] e.op = "exec" -> Exec(s, o, e)
    [] e.op = "read" -> Read(s, o, e)
    [] e.op = "readall" -> ReadAll(s, o, e)
    [] e.op = "wait" -> Wait(s, o, e)
    [] e.op = "state" -> {o}
    [] e.op = "kill" -> Kill(o)
    [] e.op = "intr" -> Intr(o)
    [] e.op = "disown" -> Disown(o)
    [] e.op = "settle" -> IF ~Executing(o) THEN {o} ELSE IF Ends(o.run) THEN {Run(o, [o.run EXCEPT !.settled = TRUE])} ELSE {}
    [] e.op = "content" -> Content(o, e)
    [] OTHER -> {}

MInit == [o |-> [i \in {} |-> 0], now |-> 0, frozen |-> TRUE]
NoneExecuting(s, P(_)) == \A i \in DOMAIN s.o : ~(Executing(s.o[i]) /\ P(s.o[i]))
IdleOk(s, e) ==
  /\ e.stray = 0 /\ ~e.blocked
  /\ (\A i \in DOMAIN s.o : ~Executing(s.o[i]) \/ s.o[i].run.detached) => e.chld /\ e.int /\ e.term /\ ~e.kids
  /\ (\A i \in DOMAIN s.o : ~Executing(s.o[i])) => e.fds = 0
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, MInit, "")
    [] e.cwd # Base -> Res(FALSE, s, "the working directory has changed")
    [] e.op = "new" -> Res(e.st = "Starting", [s EXCEPT !.o = (e.i :> NewObj) @@ @], NewObj)
    [] e.op = "pass" -> Res(TRUE, [s EXCEPT !.now = @ + e.ms], "")
    [] e.op = "clock" -> Res(TRUE, [s EXCEPT !.frozen = e.c = "frozen"], "")
    [] e.op = "tick" -> Res(TRUE, s, "")
    [] e.op = "null" -> Res(e.ok, s, "")
    [] e.op = "idle" -> Res(IdleOk(s, e), s, <<"handlers, descriptors, signals, processes", [i \in DOMAIN s.o |-> s.o[i].det.st]>>)
    [] e.op = "selfsig" -> Res(e.by = e.sig /\ e.alive = 0, s, "ended by the signal, with its processes")
    \* looked for until there are as many as asked for; what is seen before that is not told from what comes later
    [] e.op = "alive" -> Res((e.want = AliveN(s.o[e.i]) => e.n = AliveN(s.o[e.i])) /\ (s.o[e.i].det.st = "gone" \/ Det(e) = s.o[e.i].det), s, AliveN(s.o[e.i]))
    [] OTHER -> LET qs == OfObj(s, s.o[e.i], e)
                    good == {q \in qs : q.det = Det(e)}
                IN IF good = {} THEN Res(FALSE, s, <<s.o[e.i], qs>>)
                   ELSE Res((e.st = "Exited" => e.raw), [s EXCEPT !.o[e.i] = CHOOSE q \in good : TRUE], "")
=============================================================================
