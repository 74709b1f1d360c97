---------------------------- MODULE MCDataFiles ----------------------------
(* The laws of the file formats over all small contents; every PLY file with *)
(* some columns and up to two declared and present vertices.                 *)
EXTENDS DataFiles, Json, CSV, IOUtils
CONSTANTS MaxCols, MaxStates
Sts == {<<ToString(f), "1.5", "-2", "0", "1", "0", "255", "0", "7">> : f \in {-1, 0, 10}}
Hists == UNION {{q \in [1..n -> Sts] : \A i \in 1..n - 1 : IntOf(q[i][1]) < IntOf(q[i + 1][1])} : n \in 0..MaxStates}
TrackSets == {<<>>} \cup {<<[id |-> "3", st |-> a]>> : a \in Hists} \cup {<<[id |-> "3", st |-> a], [id |-> "0", st |-> b]>> : a \in Hists, b \in Hists}
Lm == {<<"1.5", "0", "-7", "0", "1", "0", "1", "2", "255", "4">>, <<"0", "0", "0", "0", "0", "0", "255", "255", "255", "0">>}
LmMaps == {<<>>} \cup {<<[id |-> "0", v |-> a]>> : a \in Lm} \cup {<<[id |-> "2", v |-> a], [id |-> "10", v |-> b]>> : a \in Lm, b \in Lm}
TrackRoundTrip == \A ts \in TrackSets : LET x == ReadTracks(TrackLines(ts)) IN x.ok /\ x.v = ById(NonEmptyTracks(ts)) /\ InFrameOrder(TrackLines(ts))
TruncatedLine == \A ts \in TrackSets : \A i \in 1..Len(TrackLines(ts)) : \A k \in 1..9 :
                    ~ReadTracks([TrackLines(ts) EXCEPT ![i] = SubSeq(@, 1, k)]).ok
PlyRoundTrip == \A m \in LmMaps : LET x == ReadPly(PlyLines(m)) IN x.ok /\ DOMAIN x.v = {m[i].id : i \in 1..Len(m)} /\ \A i \in 1..Len(m) : x.v[m[i].id] = m[i].v
PlyTruncated == \A m \in LmMaps : \A n \in 0..Len(PlyLines(m)) - 1 : ~ReadPly(SubSeq(PlyLines(m), 1, n)).ok
PlyTrailing == \A m \in LmMaps : ReadPly(PlyLines(m) \o << <<"3", "0", "1", "2">>, <<"junk">> >>).v = ReadPly(PlyLines(m)).v

VARIABLES cols, decl, pres, face
Names == {"x", "y", "NX", "green", "track_id", "quality", "diffuse_red"}
Word(c, r) == CASE c = "x" -> ToString(r) \o ".5" [] c = "y" -> "-" \o ToString(r) [] c = "NX" -> "1" [] c = "green" -> ToString(r)
                [] c = "track_id" -> ToString(10 - r) [] c = "quality" -> "bad" [] OTHER -> "12"
Text == << <<"ply">>, <<"format", "ascii", "1.0">>, <<"element", "vertex", ToString(decl)>> >> \o [i \in 1..Len(cols) |-> <<"property", "float", cols[i]>>]
        \o (IF face THEN << <<"element", "face", "1">>, <<"property", "list", "uchar", "int", "vertex_indices">> >> ELSE <<>>) \o << <<"end_header">> >>
        \o [i \in 1..pres |-> [c \in 1..Len(cols) |-> Word(cols[c], i)]] \o (IF face THEN << <<"3", "0", "1", "2">> >> ELSE <<>>)
Init == /\ cols \in UNION {[1..n -> Names] : n \in 1..MaxCols} /\ decl \in 0..2 /\ pres \in 0..2 /\ face \in BOOLEAN
        /\ \A i, j \in 1..Len(cols) : i # j => cols[i] # cols[j]
Next == UNCHANGED <<cols, decl, pres, face>>
Spec == Init /\ [][Next]_<<cols, decl, pres, face>>
\* exactly the declared number of vertices, or an error
Exactly == LET x == ReadPly(Text) IN x.ok => Cardinality(DOMAIN x.v) = decl /\ (decl <= pres \/ (face /\ decl = pres + 1))
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv
               THEN CSVWrite("%1$s", <<ToJson(<< <<"put", "f.ply">> \o [i \in 1..Len(Text) |-> JoinWith(Text[i], " ")], <<"rply", "f.ply">> >>)>>, IOEnv.SCRIPTS) ELSE TRUE
ASSUME TrackRoundTrip /\ TruncatedLine /\ PlyRoundTrip /\ PlyTruncated /\ PlyTrailing
=============================================================================
