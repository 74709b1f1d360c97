----------------------------- MODULE DataFiles -----------------------------
(* Track, landmark (PLY) and camera (KRTD) files.  A text file is a sequence *)
(* of lines, a line a sequence of words; numbers are kept as the words that  *)
(* denote them (the harness prints every number it observes with 17 digits), *)
(* except in cameras, whose numbers pass through rotations: they are         *)
(* integers, scaled, and compared with a tolerance of one unit.              *)
EXTENDS StrUtil
FInit == [dirs |-> {""}, files |-> <<>>]

-----------------------------------------------------------------------------
(* paths relative to the scratch directory; "" is the scratch directory      *)
Parent(p) == LET i == RFindIn(p, {"/"}, Len(p)) IN IF i = 0 THEN "" ELSE UpTo(p, i - 1)
RECURSIVE Ancestors(_)
Ancestors(p) == IF p = "" THEN {""} ELSE {p} \cup Ancestors(Parent(p))
IsFile(s, p) == p \in DOMAIN s.files
IsDir(s, p) == p \in s.dirs
Exists(s, p) == IsFile(s, p) \/ IsDir(s, p)
\* a file can be written where there is no directory and none of the directories above is a file
Writable(s, p) == p # "FULL" /\ ~IsDir(s, p) /\ \A a \in Ancestors(Parent(p)) : ~IsFile(s, a)
Put(s, p, c) == [s EXCEPT !.files = (p :> c) @@ @, !.dirs = @ \cup Ancestors(Parent(p))]

-----------------------------------------------------------------------------
(* numbers *)
AllIn(w, C) == w # "" /\ \A i \in 1..Len(w) : Ch(w, i) \in C
Unsigned(w) == IF w # "" /\ Ch(w, 1) \in {"-", "+"} THEN From(w, 2) ELSE w
IsInt(w) == AllIn(Unsigned(w), Digits)
IsNum(w) == LET u == Unsigned(w)
                d == FindIn(u, {"."}, 1)
                e == FindIn(u, {"e"}, 1)
                m == UpTo(u, e - 1)
                a == UpTo(m, FindIn(m, {"."}, 1) - 1)
                b == From(m, FindIn(m, {"."}, 1) + 1)
            IN /\ m # "" /\ m # "." /\ (a = "" \/ AllIn(a, Digits)) /\ (b = "" \/ AllIn(b, Digits))
               /\ (e <= Len(u) => IsInt(From(u, e + 1)))
IsByte(w) == IsInt(w) /\ Len(w) <= 3 /\ w \in {ToString(i) : i \in 0..255}
IsNat(w) == AllIn(w, Digits)

Fail(k) == [ok |-> FALSE, kind |-> k]

-----------------------------------------------------------------------------
(* Track files: one line per state, "id frame x y magnitude scale angle r g b" *)
\* a track is [id, st]; a state is a sequence of the nine words after the id
TrackLines(ts) == LET L(t) == [i \in 1..Len(t.st) |-> <<t.id>> \o t.st[i]]
                      RECURSIVE C(_)
                      C(q) == IF q = <<>> THEN <<>> ELSE L(Head(q)) \o C(Tail(q))
                  IN C(ts)
GoodTrackLine(w) == /\ Len(w) >= 10 /\ IsInt(w[1]) /\ IsInt(w[2])
                    /\ \A i \in 3..7 : IsNum(w[i])
                    /\ \A i \in 8..10 : IsByte(w[i])
IntOf(w) == StrToInt(w)
\* lines in the order of their frames within each track
InFrameOrder(ls) == \A i, j \in 1..Len(ls) : (i < j /\ ls[i][1] = ls[j][1]) => IntOf(ls[i][2]) < IntOf(ls[j][2])
\* the tracks in the lines, by id
TracksIn(ls) == [id \in {ls[i][1] : i \in 1..Len(ls)} |->
                   LET q == SelectSeq(ls, LAMBDA w : w[1] = id) IN [i \in 1..Len(q) |-> SubSeq(q[i], 2, 10)]]
ReadTracks(ls) == IF \E i \in 1..Len(ls) : ~GoodTrackLine(ls[i]) THEN Fail("content") ELSE [ok |-> TRUE, kind |-> "", v |-> TracksIn(ls)]
ById(ts) == [id \in {ts[i].id : i \in 1..Len(ts)} |-> ts[CHOOSE i \in 1..Len(ts) : ts[i].id = id].st]
NonEmptyTracks(ts) == SelectSeq(ts, LAMBDA t : t.st # <<>>)

-----------------------------------------------------------------------------
(* PLY files.  A landmark is the words <<x, y, z, nx, ny, nz, r, g, b, obs>>. *)
PlyHeader(n) == << <<"ply">>, <<"format", "ascii", "1.0">>, <<"comment", "written", "by", "VITAL">>, <<"element", "vertex", ToString(n)>> >>
   \o [i \in 1..6 |-> <<"property", "float", <<"x", "y", "z", "nx", "ny", "nz">>[i]>>]
   \o [i \in 1..3 |-> <<"property", "uchar", <<"red", "green", "blue">>[i]>>]
   \o << <<"property", "uint", "track_id">>, <<"property", "uint", "observations">>, <<"end_header">> >>
PlyLines(lms) == PlyHeader(Len(lms)) \o [i \in 1..Len(lms) |-> SubSeq(lms[i].v, 1, 9) \o <<lms[i].id, lms[i].v[10]>>]
\* which attribute a property stands for (0: none, 11: the id)
Attr(n) == CASE n = "x" -> 1 [] n = "y" -> 2 [] n = "z" -> 3
             [] n \in {"nx", "vsfm_cnx"} -> 4 [] n \in {"ny", "vsfm_cny"} -> 5 [] n \in {"nz", "vsfm_cnz"} -> 6
             [] n \in {"red", "diffuse_red"} -> 7 [] n \in {"green", "diffuse_green"} -> 8 [] n \in {"blue", "diffuse_blue"} -> 9
             [] n \in {"observations", "number_of_camera_sees_this_point"} -> 10 [] n = "track_id" -> 11 [] OTHER -> 0
Default == <<"0", "0", "0", "0", "0", "0", "255", "255", "255", "0">>
GoodWord(a, w) == CASE a = 0 -> TRUE [] a \in 1..6 -> IsNum(w) [] a \in 7..9 -> IsByte(w) [] a = 10 -> IsNat(w) [] OTHER -> IsInt(w)
HeaderEnd(ls) == IF \E i \in 1..Len(ls) : ls[i] = <<"end_header">> THEN CHOOSE i \in 1..Len(ls) : ls[i] = <<"end_header">> /\ \A j \in 1..i - 1 : ls[j] # <<"end_header">> ELSE 0
IsElem(w) == Len(w) = 3 /\ w[1] = "element"
VertexLine(ls) == CHOOSE i \in 0..Len(ls) : (i = 0 /\ \A j \in 1..Len(ls) : ~(IsElem(ls[j]) /\ ls[j][2] = "vertex"))
                                            \/ (i > 0 /\ IsElem(ls[i]) /\ ls[i][2] = "vertex")
\* the attributes of the columns
Columns(hd) == LET v == VertexLine(hd)
                   Nx == {j \in v + 1..Len(hd) : IsElem(hd[j])}
                   z == IF Nx = {} THEN Len(hd) ELSE (CHOOSE j \in Nx : \A k \in Nx : j <= k) - 1
                   ps == SelectSeq(SubSeq(hd, v + 1, z), LAMBDA w : Len(w) = 3 /\ w[1] = "property")
               IN IF v = 0 THEN <<>> ELSE [i \in 1..Len(ps) |-> Attr(LowerStr(ps[i][3]))]
Vertex(cols, row, no) ==
  LET at(a) == {i \in 1..Len(cols) : cols[i] = a}
      last(S) == CHOOSE i \in S : \A j \in S : i >= j
  IN [id |-> IF at(11) = {} THEN ToString(no) ELSE row[last(at(11))],
      v |-> [a \in 1..10 |-> IF at(a) = {} THEN Default[a] ELSE row[last(at(a))]]]
ReadPly(ls0) ==
  LET ls == SelectSeq(ls0, LAMBDA w : w # <<>>)
      e == HeaderEnd(ls)
      hd == SubSeq(ls, 1, e - 1)
      n == IF VertexLine(hd) = 0 THEN 0 ELSE StrToInt(hd[VertexLine(hd)][3])
      cols == Columns(hd)
      rows == SubSeq(ls, e + 1, e + n)
      bad(r) == Len(r) < Len(cols) \/ \E i \in 1..Len(cols) : ~GoodWord(cols[i], r[i])
      vs == [i \in 1..n |-> Vertex(cols, rows[i], i - 1)]
  IN IF e = 0 \/ Len(ls) < e + n THEN Fail("content")
     ELSE IF \E i \in 1..n : bad(rows[i]) THEN Fail("content")
     ELSE [ok |-> TRUE, kind |-> "", v |-> [id \in {vs[i].id : i \in 1..n} |-> (vs[CHOOSE i \in 1..n : vs[i].id = id /\ \A j \in i + 1..n : vs[j].id # id]).v]]

-----------------------------------------------------------------------------
(* Camera files.  A camera is [k: 9 integers, r: 9, t: 3, d: any number].     *)
\* file contents: either a written camera or the words of a text
Scale == 10000
CamOfWords(ws) ==
  LET n(i) == IntOf(ws[i]) * Scale
  IN IF Len(ws) < 21 \/ \E i \in 1..Len(ws) : ~IsInt(ws[i]) THEN Fail("content")
     ELSE [ok |-> TRUE, kind |-> "",
           v |-> [k |-> [i \in 1..9 |-> n(i)], r |-> [i \in 1..9 |-> n(9 + i)], t |-> [i \in 1..3 |-> n(18 + i)],
                  d |-> IF Len(ws) = 22 /\ n(22) = 0 THEN <<>> ELSE [i \in 1..Len(ws) - 21 |-> n(21 + i)]]]
ReadCam(c) == IF c.form = "words" THEN CamOfWords(c.w)
              ELSE IF c.form = "camera" THEN [ok |-> TRUE, kind |-> "", v |-> c.cam]
              ELSE Fail("content")
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] - b[i] \in -1..1
NearCam(a, b) == Near(a.k, b.k) /\ Near(a.r, b.r) /\ Near(a.t, b.t) /\ Near(a.d, b.d)
\* the camera file that belongs to an image
LastName(p) == From(p, RFindIn(p, {"/"}, Len(p)) + 1)
NoExt(n) == LET i == RFindIn(n, {"."}, Len(n)) IN IF i = 0 THEN n ELSE UpTo(n, i - 1)
CamPath(dir, img) == (IF dir = "" THEN "" ELSE dir \o "/") \o NoExt(LastName(img)) \o ".krtd"
ReadCams(s, dir, imgs) ==
  LET have == {i \in 1..Len(imgs) : IsFile(s, CamPath(dir, imgs[i]))}
      cam(i) == ReadCam(s.files[CamPath(dir, imgs[i])])
  IN IF ~Exists(s, dir) THEN Fail("nopath")
     ELSE IF \E i \in have : ~cam(i).ok THEN Fail("content")
     ELSE IF have = {} THEN Fail("invalid")
     ELSE [ok |-> TRUE, kind |-> "", v |-> [i \in have |-> cam(i).v]]

-----------------------------------------------------------------------------
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
\* how a failure may show
Shows(kind, r) == CASE kind = "content" -> r \in {"invalid", "notread"}
                    [] kind = "notfound" -> r = "notfound"
                    [] kind = "unreadable" -> r \in {"notfound", "notread", "invalid"}
                    [] kind = "nopath" -> r = "nopath"
                    [] kind = "invalid" -> r = "invalid"
                    [] kind = "write" -> r = "write"
\* what reading path p as something gives
Look(s, p, dirkind, P(_)) == IF IsFile(s, p) THEN P(s.files[p]) ELSE IF IsDir(s, p) THEN Fail(dirkind) ELSE Fail("notfound")
Lines_(c, P(_)) == IF c.form = "lines" THEN P(c.l) ELSE Fail("content")
Wrote(s, e, possible, c) == IF possible /\ Writable(s, e.p) THEN Res(e.r = "ok", Put(s, e.p, c), "ok") ELSE Res(e.r = "write", s, "write")
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, FInit, "")
    [] e.op = "mkdir" -> Res(TRUE, [s EXCEPT !.dirs = @ \cup Ancestors(e.p)], "")
    [] e.op = "put" -> Res(TRUE, Put(s, e.p, [form |-> "lines", l |-> e.l]), "")
    [] e.op = "putcam" -> Res(TRUE, Put(s, e.p, [form |-> "words", w |-> e.w]), "")
    [] e.op = "wtrk" /\ e.p = "FULL" /\ e.v # <<>> /\ TrackLines(e.v) = <<>> ->
         Res(e.r \in {"ok", "write"}, s, "writing nothing to a full device: unspecified")
    [] e.op = "wtrk" -> Wrote(s, e, e.v # <<>>, [form |-> "lines", l |-> TrackLines(e.v)])
    [] e.op = "rtrk" -> LET x == Look(s, e.p, "notfound", LAMBDA c : Lines_(c, ReadTracks))
                        IN IF x.ok THEN IF InFrameOrder(s.files[e.p].l)
                                        THEN Res(e.r = "ok" /\ Len(e.v) = Cardinality(DOMAIN x.v) /\ ById(e.v) = x.v, s, x.v)
                                        ELSE Res(TRUE, s, "lines out of order: unspecified")
                           ELSE Res(Shows(x.kind, e.r), s, x.kind)
    [] e.op = "wply" -> Wrote(s, e, e.v # <<>>, [form |-> "lines", l |-> PlyLines(e.v)])
    [] e.op = "rply" -> LET x == Look(s, e.p, "unreadable", LAMBDA c : Lines_(c, ReadPly))
                        IN IF x.ok THEN Res(e.r = "ok" /\ Len(e.v) = Cardinality(DOMAIN x.v) /\ {e.v[i].id : i \in 1..Len(e.v)} = DOMAIN x.v
                                              /\ \A i \in 1..Len(e.v) : e.v[i].v = x.v[e.v[i].id], s, x.v)
                           ELSE Res(Shows(x.kind, e.r), s, x.kind)
    [] e.op = "wcam" -> Wrote(s, e, TRUE, [form |-> "camera", cam |-> e.v])
    [] e.op = "rcam" -> LET x == Look(s, e.p, "notfound", ReadCam)
                        IN IF x.ok THEN Res(e.r = "ok" /\ NearCam(e.v, x.v), s, x.v) ELSE Res(Shows(x.kind, e.r), s, x.kind)
    [] e.op = "rcams" -> LET x == ReadCams(s, e.p, e.img)
                         IN IF x.ok THEN Res(e.r = "ok" /\ Len(e.keys) = Cardinality(DOMAIN x.v) /\ {e.keys[i] + 1 : i \in 1..Len(e.keys)} = DOMAIN x.v
                                               /\ \A i \in 1..Len(e.keys) : NearCam(e.cams[i], x.v[e.keys[i] + 1]), s, x.v)
                            ELSE Res(Shows(x.kind, e.r), s, x.kind)
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
