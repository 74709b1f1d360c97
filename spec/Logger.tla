------------------------------- MODULE Logger -------------------------------
(* Named loggers with a level threshold, and the text they write.            *)
EXTENDS StrUtil
NONE == 1  TRACE == 2  DEBUG == 3  INFO == 4  WARN == 5  ERROR == 6  FATAL == 7
Severities == 2..7
LevelName(l) == CASE l = 2 -> "TRACE" [] l = 3 -> "DEBUG" [] l = 4 -> "INFO" [] l = 5 -> "WARN" [] l = 6 -> "ERROR" [] l = 7 -> "FATAL" [] OTHER -> "<unknown>"

LInit == [id |-> <<>>, lev |-> <<>>]
Known(s, n) == n \in DOMAIN s.id
\* a request for name n that returned object i
GotOk(s, n, i) == IF Known(s, n) THEN s.id[n] = i ELSE \A m \in DOMAIN s.id : s.id[m] # i
Got(s, n, i) == IF Known(s, n) THEN s ELSE [s EXCEPT !.id = (n :> i) @@ @, !.lev = (n :> TRACE) @@ @]
Emits(s, n, sev) == sev >= s.lev[n]

-----------------------------------------------------------------------------
(* the text of a message: its lines, a final line break not starting another one *)
Chopped(t) == IF Len(t) > 0 /\ Ch(t, Len(t)) = "\n" THEN UpTo(t, Len(t) - 1) ELSE t
RECURSIVE JoinLines(_, _, _)
JoinLines(ls, i, n) == IF i = n THEN ls[i] ELSE ls[i] \o "\n" \o JoinLines(ls, i + 1, n)
\* "2026-01-02 03:04:05.678"
StampLen == 23
StampDigits(q) == SubSeq(q, 1, 4) \o SubSeq(q, 6, 7) \o SubSeq(q, 9, 10) \o SubSeq(q, 12, 13) \o SubSeq(q, 15, 16) \o SubSeq(q, 18, 19) \o SubSeq(q, 21, 23)
IsStamp(q) == /\ Len(q) = StampLen /\ Ch(q, 5) = "-" /\ Ch(q, 8) = "-" /\ Ch(q, 11) = " " /\ Ch(q, 14) = ":" /\ Ch(q, 17) = ":" /\ Ch(q, 20) = "."
              /\ \A i \in 1..17 : Ch(StampDigits(q), i) \in Digits
StampLE(a, b) == LexLE(StampDigits(a), StampDigits(b))
\* what stands between the time stamp and the text on each line of a message
Label(sev, loc) == " " \o LevelName(sev) \o " " \o (IF loc = "" THEN "" ELSE loc \o ": ")
\* lines a..b (without line breaks) are the text labelled for sev and loc, all with the same time stamp
IsText(lines, a, b, sev, loc, text) ==
  LET lab == Label(sev, loc)
      n == StampLen + Len(lab)
      stamp == UpTo(lines[a], StampLen)
  IN /\ b <= Len(lines)
     /\ Len(lines[a]) >= StampLen /\ IsStamp(stamp)
     /\ \A i \in a..b : StartsWith(lines[i], stamp \o lab)
     /\ JoinLines([i \in a..b |-> From(lines[i], n + 1)], a, b) = Chopped(text)
IsMessage(lines, sev, loc, text, t0, t1) ==
  /\ lines # <<>> /\ IsText(lines, 1, Len(lines), sev, loc, text)
  /\ StampLE(t0, UpTo(lines[1], StampLen)) /\ StampLE(UpTo(lines[1], StampLen), t1)

-----------------------------------------------------------------------------
(* A source location: "dir/file.cxx", "ret ns::Class::method(args)", line    *)
BaseName(p) == LET i == RFindIn(p, {"/"}, Len(p)) IN From(p, i + 1)
PathName(p) == LET i == RFindIn(p, {"/"}, Len(p)) IN IF i = 0 THEN "" ELSE IF i = 1 THEN "/" ELSE UpTo(p, i - 1)
NoArgs(m) == UpTo(m, FindIn(m, {"("}, 1) - 1)
LastWord(m) == From(m, RFindIn(m, {" "}, Len(m)) + 1)
\* position of the last "::" (0: none)
RECURSIVE LastSep(_, _)
LastSep(m, i) == IF i < 1 THEN 0 ELSE IF i < Len(m) /\ SubSeq(m, i, i + 1) = "::" THEN i ELSE LastSep(m, i - 1)
Qualified(m) == LastWord(NoArgs(m))
MethodName(m) == LET q == Qualified(m) IN IF LastSep(q, Len(q)) = 0 THEN q ELSE From(q, LastSep(q, Len(q)) + 2)
ClassName(m) == LET q == Qualified(m) IN IF LastSep(q, Len(q)) = 0 THEN "" ELSE UpTo(q, LastSep(q, Len(q)) - 1)

-----------------------------------------------------------------------------
(* Several threads: the output is some interleaving of whole messages, those *)
(* of one thread in order.  jobs[t] is a sequence of [n, sev, loc, text].    *)
MaxLines == 10
From_(q, n) == SubSeq(q, n + 1, Len(q))
RECURSIVE Merge(_, _, _, _)
Merge(s, jobs, pos, lines) ==
  IF lines = <<>> THEN \A t \in DOMAIN jobs : \A i \in pos[t]..Len(jobs[t]) : ~Emits(s, jobs[t][i].n, jobs[t][i].sev)
  ELSE LET nxt(t) == CHOOSE i \in pos[t]..(Len(jobs[t]) + 1) :
                        /\ \A j \in pos[t]..(i - 1) : ~Emits(s, jobs[t][j].n, jobs[t][j].sev)
                        /\ (i = Len(jobs[t]) + 1 \/ Emits(s, jobs[t][i].n, jobs[t][i].sev))
           ends(t) == IF nxt(t) > Len(jobs[t]) THEN {}
                      ELSE LET m == jobs[t][nxt(t)] IN {b \in 1..Len(lines) : b <= MaxLines /\ IsText(lines, 1, b, m.sev, m.loc, m.text)}
       IN \E t \in DOMAIN jobs : \E b \in ends(t) : Merge(s, jobs, [pos EXCEPT ![t] = nxt(t) + 1], From_(lines, b))

-----------------------------------------------------------------------------
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
RECURSIVE GetAll(_, _)
GetAll(s, gets) == IF gets = <<>> THEN [ok |-> TRUE, st |-> s]
                   ELSE LET g == Head(gets) IN IF GotOk(s, g.n, g.id) THEN GetAll(Got(s, g.n, g.id), Tail(gets)) ELSE [ok |-> FALSE, st |-> s]
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, LInit, "")
    [] e.op = "get" -> Res(GotOk(s, e.n, e.id) /\ e.name = e.n, Got(s, e.n, e.id), <<e.n, s.id>>)
    [] e.op = "cget" -> LET g == GetAll(s, e.gets) IN Res(g.ok, g.st, s.id)
    [] e.op = "level" -> Res(TRUE, [s EXCEPT !.lev[e.n] = e.v], "")
    [] e.op = "query" -> Res(e.lev = s.lev[e.n] /\ e.on = [i \in 1..6 |-> IF Emits(s, e.n, i + 1) THEN 1 ELSE 0], s,
                             <<s.lev[e.n], [i \in 1..6 |-> IF Emits(s, e.n, i + 1) THEN 1 ELSE 0]>>)
    [] e.op = "lname" -> Res(e.r = LevelName(e.v), s, LevelName(e.v))
    [] e.op = "log" -> Res(IF Emits(s, e.n, e.sev) THEN IsMessage(e.lines, e.sev, e.loc, e.text, e.t0, e.t1) ELSE e.lines = <<>>, s,
                           <<Emits(s, e.n, e.sev), Label(e.sev, e.loc), e.text>>)
    [] e.op = "loc" -> Res(e.r = <<BaseName(e.f), PathName(e.f), e.m, MethodName(e.m), ClassName(e.m), e.line>>, s,
                           <<BaseName(e.f), PathName(e.f), e.m, MethodName(e.m), ClassName(e.m), e.line>>)
    [] e.op = "clog" -> Res(Merge(s, e.jobs, [t \in DOMAIN e.jobs |-> 1], e.lines), s, "whole messages, each once, in the order of their threads")
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
