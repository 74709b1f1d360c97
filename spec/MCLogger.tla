------------------------------ MODULE MCLogger ------------------------------
(* All small histories of requests, level changes and messages; and the      *)
(* output of concurrent writers at line granularity (Locked or not).         *)
EXTENDS Logger, Json, CSV, IOUtils
CONSTANTS MaxOps
VARIABLES s, emitted, hist
Names == {"a", "b", "a.b"}
Vias == <<"msg", "loc", "macro", "message", "messageloc", "msg">>
Ops == {<<"get", n, "s">> : n \in Names} \cup {<<"level", n, ToString(v)>> : n \in DOMAIN s.id, v \in {2, 4, 6, 7}}
       \cup {<<"log", n, ToString(v), Vias[v - 1], "t" \o ToString(v)>> : n \in DOMAIN s.id, v \in {3, 5, 7}}
Init == s = LInit /\ emitted = {} /\ hist = <<>>
Do(o) == CASE o[1] = "get" -> s' = Got(s, o[2], IF Known(s, o[2]) THEN s.id[o[2]] ELSE Cardinality(DOMAIN s.id)) /\ emitted' = {}
           [] o[1] = "level" -> s' = [s EXCEPT !.lev[o[2]] = StrToInt(o[3])] /\ emitted' = {}
           [] o[1] = "log" -> s' = s /\ emitted' = IF Emits(s, o[2], StrToInt(o[3])) THEN {o} ELSE {}
Next == Len(hist) < MaxOps /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<s, emitted, hist>>
Script(h) == h \o [i \in 1..Cardinality(DOMAIN s'.id) |-> <<"query", (CHOOSE n \in DOMAIN s'.id : s'.id[n] = i - 1), "m">>]
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(hist') = MaxOps THEN CSVWrite("%1$s", <<ToJson(Script(hist'))>>, IOEnv.SCRIPTS) ELSE TRUE
\* C21 on the specification: one object per name; a threshold per logger; changing one level changes no other
Identity == \A m, n \in DOMAIN s.id : s.id[m] = s.id[n] => m = n
Stable == [][\A n \in DOMAIN s.id : s'.id[n] = s.id[n]]_<<s, emitted, hist>>
LevelsIndependent == [][\A n \in DOMAIN s.lev : s'.lev[n] # s.lev[n] => hist'[Len(hist')][1] = "level" /\ hist'[Len(hist')][2] = n]_<<s, emitted, hist>>
Threshold == \A o \in emitted : StrToInt(o[3]) >= s.lev[o[2]]
LevelNames == \A a, b \in Severities : LevelName(a) = LevelName(b) => a = b
\* C22 on the specification: any interleaving of whole messages is accepted, a torn one is not
T == "2026-01-02 03:04:05.678"
Jobs == << << [n |-> "a", sev |-> 4, loc |-> "", text |-> "x\ny"], [n |-> "a", sev |-> 2, loc |-> "", text |-> "z"] >>, << [n |-> "b", sev |-> 7, loc |-> "f(1)", text |-> "p\nq"] >> >>
S2 == [id |-> ("a" :> 0) @@ ("b" :> 1), lev |-> ("a" :> 4) @@ ("b" :> 2)]
A1 == T \o " INFO x"  A2 == T \o " INFO y"  B1 == T \o " FATAL f(1): p"  B2 == T \o " FATAL f(1): q"
M(l) == Merge(S2, Jobs, <<1, 1>>, l)
MergeLaws == /\ M(<<A1, A2, B1, B2>>) /\ M(<<B1, B2, A1, A2>>) /\ ~M(<<A1, B1, A2, B2>>) /\ ~M(<<A1, A2, B1>>) /\ ~M(<<A1, A2>>)
             /\ ~M(<<A2, A1, B1, B2>>) /\ ~M(<<A1, A2, B1, B2, B1, B2>>) /\ ~M(<<A1, A2, T \o " TRACE z", B1, B2>>)
ASSUME MergeLaws /\ LevelNames
=============================================================================
