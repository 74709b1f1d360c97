------------------------------ MODULE MCFront ------------------------------
(* C30: walking two ordered maps at once finds the pairs that share an id,    *)
(* and collecting the features of tracks per frame and then going through the  *)
(* cameras gives each camera the pairs of the specification.                    *)
EXTENDS Front, Json, CSV, IOUtils
CONSTANTS Broken, MaxId, Frames, Mode
VARIABLES x, y, i, j, out, tr, lm, cams, col, pc, calls
vars == <<x, y, i, j, out, tr, lm, cams, col, pc, calls>>
\* the ordered rows of a set of ids
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o Sorted(S \ {m})
RowsOf(S, base) == LET q == Sorted(S) IN [k \in 1..Len(q) |-> <<q[k], base + q[k]>>]
Id == 0..MaxId
F == 1..Frames
\* a track: on which frames it has a state, with a feature (1), without (2), or none (0)
TrackOf(id, f) == [id |-> id, st |-> LET q == Sorted({k \in F : f[k] > 0}) IN [k \in 1..Len(q) |-> <<q[k], IF f[q[k]] = 1 THEN 100 + 10 * id + q[k] ELSE 0>>]]
NoWalk == x = <<>> /\ y = <<>>
NoOpt == tr = <<>> /\ lm = <<>> /\ cams = <<>>
Init == /\ i = 1 /\ j = 1 /\ out = <<>> /\ col = {} /\ calls = <<>>
        /\ IF Mode = "walk" THEN /\ pc = "walk" /\ NoOpt
                                 /\ x \in {RowsOf(S, 10) : S \in SUBSET Id} /\ y \in {RowsOf(S, 30) : S \in SUBSET Id}
           ELSE /\ pc = "collect" /\ NoWalk /\ lm \in {RowsOf(S, 50) : S \in SUBSET Id} /\ cams \in {RowsOf(S, 20) : S \in SUBSET F}
                /\ tr \in {[k \in 1..MaxId + 1 |-> TrackOf(k - 1, f[k])] : f \in [1..MaxId + 1 -> [F -> 0..2]]}
Same == UNCHANGED <<x, y, tr, lm, cams>>
\* ---- the walk
More == i <= Len(x) /\ j <= Len(y)
Walk == /\ pc = "walk" /\ More /\ Same /\ UNCHANGED <<col, pc, calls>>
        /\ CASE x[i][1] > y[j][1] -> j' = j + 1 /\ UNCHANGED <<i, out>>
             [] x[i][1] < y[j][1] -> i' = i + 1 /\ (IF Broken = "lesser" THEN j' = j + 1 ELSE j' = j) /\ UNCHANGED out
             [] OTHER -> out' = Append(out, <<Place(x[i][2]), Place(y[j][2])>>) /\ i' = i + 1 /\ j' = j + 1
WalkEnd == pc = "walk" /\ ~More /\ pc' = "walked" /\ Same /\ UNCHANGED <<i, j, out, col, calls>>
\* ---- collecting: of each track in turn, what a landmark and a camera are there for
Collect == /\ pc = "collect" /\ i <= Len(tr) /\ i' = i + 1 /\ Same /\ UNCHANGED <<j, out, pc, calls>>
           /\ LET t == tr[i]
                  good == {k \in 1..Len(t.st) : (t.st[k][2] # 0 \/ Broken = "nofeat") /\ t.st[k][1] \in Ids(cams)}
              IN col' = IF t.id \in Ids(lm) \/ Broken = "nolm" THEN col \cup {<<t.st[k][1], t.id, t.st[k][2]>> : k \in good} ELSE col
Turn == pc = "collect" /\ i > Len(tr) /\ pc' = "cameras" /\ Same /\ UNCHANGED <<i, j, out, col, calls>>
LmOf(id) == IF id \in Ids(lm) THEN Of(lm, id) ELSE 0
Camera == /\ pc = "cameras" /\ j <= Len(cams) /\ j' = j + 1 /\ Same /\ UNCHANGED <<i, col, pc, out>>
          /\ LET ids == Sorted({c[2] : c \in {c \in col : c[1] = cams[j][1]}})
                 ft(id) == (CHOOSE c \in col : c[1] = cams[j][1] /\ c[2] = id)[3]
                 old == IF Broken = "carry" /\ calls # <<>> THEN calls[Len(calls)] ELSE [f |-> <<>>, l |-> <<>>]
             IN calls' = Append(calls, [cam |-> cams[j][2], f |-> old.f \o [k \in 1..Len(ids) |-> ft(ids[k])], l |-> old.l \o [k \in 1..Len(ids) |-> LmOf(ids[k])]])
Done == pc = "cameras" /\ j > Len(cams) /\ pc' = "made" /\ Same /\ UNCHANGED <<i, j, out, col, calls>>
Next == Walk \/ WalkEnd \/ Collect \/ Turn \/ Camera \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ev == [op |-> "optcam", nc |-> FALSE, nt |-> FALSE, nl |-> FALSE, mode |-> "keep", c |-> cams, t |-> tr, l |-> lm, was |-> cams, res |-> cams, exc |-> "", calls |-> calls]
WalkRight == pc = "walked" => Similar([k |-> "cmap", same |-> TRUE, x |-> x, y |-> y, calls |-> <<[a |-> [k \in 1..Len(out) |-> out[k][1]], b |-> [k \in 1..Len(out) |-> out[k][2]]]>>])
CamerasRight == pc = "made" => Optimize(Ev)
\* at no time is anything handed out that the end has not
OutSound == {out[k] : k \in 1..Len(out)} \subseteq Shared(x, y)
Ends == <>(pc \in {"walked", "made"})
\* ---- scripts
RECURSIVE RowText(_), Text(_)
RowText(r) == ToString(r[1]) \o "," \o ToString(r[2])
Text(q) == IF q = <<>> THEN "" ELSE RowText(q[1]) \o (IF Len(q) = 1 THEN "" ELSE ";" \o Text(Tail(q)))
RECURSIVE TrText(_)
TrText(q) == IF q = <<>> THEN "" ELSE ToString(q[1].id) \o "/" \o Text(q[1].st) \o (IF Len(q) = 1 THEN "" ELSE "/" \o TrText(Tail(q)))
ScriptW(a, b) == << <<"sim", "cmap", Text(a), Text(b)>>, <<"sim", "lmap", Text(a), Text(b)>> >>
ScriptO(c, t, l) == << <<"optcam", Text(c), TrText(t), Text(l), "odd">> >>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ pc' \in {"walked", "made"}
               THEN CSVWrite("%1$s", <<ToJson(IF pc' = "walked" THEN ScriptW(x', y') ELSE ScriptO(cams', tr', lm'))>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
