-------------------------------- MODULE CApi --------------------------------
(* The C interface (vital/bindings/c): handles, errors and what the calls do. *)
(*                                                                            *)
(* A handle denotes an object.  Every time an object is handed out it gains   *)
(* one release that its user owes; the handle can be used while some are      *)
(* owed.  Objects also live on while something that lives contains them.      *)
(* An error handle ends with code 0 after success and otherwise with another  *)
(* code and a message.  What the calls do is what the native operations do:   *)
(* configurations are those of ConfigStore.                                   *)
EXTENDS ConfigStore

Null == "<null>"      \* a null string argument
NewCall == "<new>"    \* vital_config_block_new instead of ..._new_named
None == "-"
AInit == [cf |-> CInit,     \* configurations, by handle
          refs |-> <<>>,    \* object -> releases owed
          kind |-> <<>>,    \* object -> kind
          inn |-> <<>>,     \* object -> objects it contains
          dat |-> <<>>,     \* object -> content
          native |-> {},    \* objects held outside the interface
          gone |-> {},      \* freed objects
          files |-> <<>>]   \* path -> content
In(x, m) == x \in DOMAIN m
Given(s, o, k) == In(o, s.refs) /\ s.refs[o] > 0 /\ s.kind[o] = k
GivenAlg(s, o, t) == Given(s, o, "alg") /\ s.dat[o].t = t
New(s, o) == o \notin {"0", "?"} /\ ~In(o, s.kind)

\* a new object o, handed out n times
Born(s, o, k, n, c, d) == [s EXCEPT !.refs = Put(@, o, n), !.kind = Put(@, o, k), !.inn = Put(@, o, c), !.dat = Put(@, o, d)]
Hand(s, o) == [s EXCEPT !.refs[o] = @ + 1]
Drop(s, o) == [s EXCEPT !.refs[o] = @ - 1]
Roots(s) == {o \in DOMAIN s.refs : s.refs[o] > 0} \cup s.native
Inside(s, o) == IF In(o, s.inn) THEN s.inn[o] ELSE {}
\* what is reached from S, through views to what they were made from or not
RECURSIVE Reach(_, _, _)
Reach(s, S, views) == LET N == S \cup UNION {Inside(s, o) : o \in {o \in S : views \/ ~In(o, s.kind) \/ s.kind[o] # "cfg"}} IN IF N = S THEN S ELSE Reach(s, N, views)
\* what has to exist: a view needs the entries it shows, not the object it was made from
Must(s) == Reach(s, Roots(s), FALSE)
May(s) == Reach(s, Roots(s), TRUE)
\* an operation that leads to state s freed these objects: nothing that is needed, and all that nobody can reach
FreedOK(s, F) == LET all == (DOMAIN s.kind \cup s.native) \ (s.gone \cup {""})
                 IN F \subseteq all /\ F \cap Must(s) = {} /\ (all \ F) \subseteq May(s)

-----------------------------------------------------------------------------
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
\* the error handle of an event after success and after failure
Good(e) == e.ec \in {-99, 0} /\ e.msg = ""
Bad(e) == e.ec = -99 \/ (e.ec # 0 /\ e.msg # "")
\* ... with the message of the failing operation in it
BadMsg(e) == e.ec = -99 \/ (Bad(e) /\ (e.nat = "" \/ e.at >= 0))
BadCode(e, c) == e.ec = -99 \/ (BadMsg(e) /\ e.ec = c)
\* releasing a handle; one that nothing is owed for is left alone, a null one is an error
Release(s, e, mine) == IF mine THEN Res(Good(e), Drop(s, e.a), "released")
                       ELSE IF e.a = "0" THEN Res(Bad(e), s, "an error") ELSE Res(Good(e) \/ Bad(e), s, "no effect")
\* a call that either gives the answer ok or fails
Answer(s, e, can, ok, fail) == IF can THEN Res(ok /\ Good(e), s, "success") ELSE Res(fail /\ Bad(e), s, "failure")
Text(e, x) == e.got /\ e.s = x /\ e.n = Len(x)

-----------------------------------------------------------------------------
(* configurations *)
NewCfg(s, o, name, st) == [Born(s, o, "cfg", 1, {}, <<>>) EXCEPT !.cf = NewRoot(@, o, st, name)]
\* the result of a ConfigStore operation, with the handle of this event in it
Cf(s, op, e) == Apply(s.cf, [op |-> op, h |-> e.a] @@ e)
Rows(s, c) == {<<x[1], x[2], x[3], x[4]>> : x \in DumpRows(s.cf, c)}
Quiet(s, e, op) == Res(TRUE, IF Given(s, e.a, "cfg") /\ e.k # Null THEN [s EXCEPT !.cf = Cf(s, op, e).st] ELSE s, "")
PostWithLoc(s, e) == [i \in 1..Len(e.post) |-> <<e.post[i][1], e.post[i][2], e.post[i][3], e.post[i][4], "">>]
\* the entries of a file as a store
FileStore(kv) == [val |-> [k \in {kv[i][1] : i \in 1..Len(kv)} |-> Trim((kv[CHOOSE i \in 1..Len(kv) : kv[i][1] = k /\ \A j \in i + 1..Len(kv) : kv[j][1] # k])[2])],
                  des |-> [k \in {kv[i][1] : i \in 1..Len(kv)} |-> ""], ro |-> {}, loc |-> <<>>]
RECURSIVE SetRows(_)
SetRows(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetRows(S \ {x})
IsFile(s, f) == In(f, s.files) /\ s.files[f].k # "dir"
IsCfg(s, f) == In(f, s.files) /\ s.files[f].k = "cfg"
ReadStore(f) == [FileStore(f) EXCEPT !.ro = {f[i][1] : i \in {i \in 1..Len(f) : Len(f[i]) = 3 /\ f[i][3] = "RO"}}]
\* "x/y/z" has an ancestor that is a file, or is a directory itself
Blocked(s, f) == (In(f, s.files) /\ s.files[f].k = "dir") \/ \E g \in DOMAIN s.files : s.files[g].k # "dir" /\ StartsWith(f, g \o "/")
\* writing an empty block fails; the file may have been emptied
EmptyFile == [k |-> "cfg", kv |-> <<>>, v |-> ""]
MayHold(s, f) == IF s.files[f].k = "maybe" THEN s.files[f].was \cup {EmptyFile} ELSE {s.files[f]}
Emptied(s, f) == IF Blocked(s, f) THEN s ELSE [s EXCEPT !.files = Put(@, f, [k |-> "maybe", was |-> IF In(f, s.files) THEN MayHold(s, f) ELSE {}])]
HasDir(s, f) == LET i == RFindIn(f, {"/"}, Len(f)) IN i = 0 \/ (\E g \in DOMAIN s.files : StartsWith(g, UpTo(f, i - 1) \o "/") \/ (g = UpTo(f, i - 1) /\ s.files[g].k = "dir"))
\* the files a search by name considers, first to last
Cands(e) == LET p == e.pre \o "/"
                a == p \o "share/" \o e.app \o "/"
            IN (IF e.pre \in {"", Null} THEN <<>> ELSE
                (IF e.ver \in {"", Null} THEN <<>> ELSE <<a \o e.ver \o "/config/">>) \o <<a \o "config/", p \o "share/config/", p \o "config/">>)
Found(s, e) == LET q == Cands(e) IN {i \in 1..Len(q) : In(q[i] \o e.f, s.files) /\ s.files[q[i] \o e.f].k # "dir"}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Layers(_, _, _)
Layers(s, e, S) == IF S = {} THEN EmptyStore
                   ELSE LET i == MinOf(S)
                            m == FileStore(s.files[Cands(e)[i] \o e.f].kv)
                            r == Layers(s, e, S \ {i})
                        IN [r EXCEPT !.val = m.val @@ @, !.des = m.des @@ @]
(* keys that the file syntax has no way to write, like those of global values *)
Writable(f) == f.k # "cfg" \/ \A i \in 1..Len(f.kv) : f.kv[i][1] # "" /\ Ch(f.kv[i][1], 1) \in Alpha
ConfigStep(s, e) ==
  CASE e.op = "cnew" -> IF e.name = Null THEN Res(e.p = "0" \/ New(s, e.p), IF e.p = "0" THEN s ELSE NewCfg(s, e.p, "", EmptyStore), "null or a new block")
                        ELSE Res(New(s, e.p), NewCfg(s, e.p, e.name, EmptyStore), "a new block")
    [] e.op = "cdestroy" -> Release(s, e, Given(s, e.a, "cfg"))
    [] e.op = "cname" -> IF Given(s, e.a, "cfg") THEN Res(Text(e, s.cf.h[e.a].name), s, s.cf.h[e.a].name) ELSE Res(~e.got, s, "null")
    [] e.op = "csub" -> IF Given(s, e.a, "cfg") /\ e.k # Null THEN Res(New(s, e.p), NewCfg(s, e.p, e.k, CopyStore(s.cf, e.a, e.k)), "a new block") ELSE Res(e.p = "0", s, "null")
    [] e.op = "cview" -> IF Given(s, e.a, "cfg") /\ e.k # Null
                         THEN Res(New(s, e.p), [Born(s, e.p, "cfg", 1, {e.a}, <<>>) EXCEPT !.cf = Apply(@, [op |-> "view", h |-> e.p, p |-> e.a, k |-> e.k]).st], "a new view")
                         ELSE Res(e.p = "0", s, "null")
    [] e.op = "cget" -> IF Given(s, e.a, "cfg") /\ e.k # Null /\ Has(s.cf, e.a, e.k) THEN Res(Text(e, Val(s.cf, e.a, e.k)), s, Val(s.cf, e.a, e.k)) ELSE Res(~e.got, s, "null")
    [] e.op = "cgetd" -> IF Given(s, e.a, "cfg") /\ e.k # Null
                         THEN LET v == IF Has(s.cf, e.a, e.k) THEN Val(s.cf, e.a, e.k) ELSE e.d IN Res(Text(e, v), s, v)
                         ELSE Res(~e.got, s, "null")
    [] e.op = "cgetb" -> LET can == Given(s, e.a, "cfg") /\ e.k # Null /\ Has(s.cf, e.a, e.k)
                             v == CastBool(Val(s.cf, e.a, e.k))
                         IN IF can /\ v # "!bad_cast" THEN Res(e.b = (v = "1") /\ Good(e), s, v)
                            ELSE Res(~e.b /\ (IF Given(s, e.a, "cfg") THEN BadMsg(e) ELSE Bad(e)), s, "failure")
    [] e.op = "cgetbd" -> LET v == IF Has(s.cf, e.a, e.k) THEN CastBool(Val(s.cf, e.a, e.k)) ELSE "!bad_cast"
                          IN Answer(s, e, Given(s, e.a, "cfg") /\ e.k # Null, e.b = (IF v = "!bad_cast" THEN e.d ELSE v = "1"), ~e.b)
    [] e.op = "cdescr" -> IF Given(s, e.a, "cfg") /\ e.k # Null /\ Has(s.cf, e.a, e.k) THEN Res(Text(e, Des(s.cf, e.a, e.k)), s, Des(s.cf, e.a, e.k)) ELSE Res(~e.got, s, "null")
    [] e.op = "cset" -> IF e.v = Null THEN Res(TRUE, s, "") ELSE Quiet(s, [e EXCEPT !.op = "set"] @@ [d |-> ""], "set")
    [] e.op = "csetd" -> IF e.v = Null \/ e.d = Null THEN Res(TRUE, s, "") ELSE Quiet(s, e, "set")
    [] e.op = "cunset" -> Quiet(s, e, "unset")
    [] e.op = "cmark" -> Quiet(s, e, "mark")
    [] e.op = "cisro" -> Res(e.b = (Given(s, e.a, "cfg") /\ e.k # Null /\ IsRO(s.cf, e.a, e.k)), s, "")
    [] e.op = "chas" -> Res(e.b = (Given(s, e.a, "cfg") /\ e.k # Null /\ Has(s.cf, e.a, e.k)), s, "")
    [] e.op = "cmerge" -> IF ~(Given(s, e.a, "cfg") /\ Given(s, e.g, "cfg")) THEN Res(TRUE, s, "")
                          ELSE IF MergeBlocked(s.cf, e.a, e.g) = {}
                               THEN LET c == WithStore(s.cf, e.a, MergeRows(Store(s.cf, e.a), s.cf.h[e.a].pre, DumpRows(s.cf, e.g)))
                                    IN Res(NoDup(e.post) /\ SeqToSet(e.post) = Rows([s EXCEPT !.cf = c], e.a), [s EXCEPT !.cf = c], "merged")
                               ELSE LET m == [h |-> e.a, p |-> e.g, post |-> PostWithLoc(s, e)]
                                    IN Res(PartialMergeOK(s.cf, m), [s EXCEPT !.cf = Adopt(s.cf, m, SeqToSet(m.post))], "old or new row per key")
    [] e.op = "cdump" -> IF Given(s, e.a, "cfg") THEN Res(e.got /\ NoDup(e.l) /\ SeqToSet(e.l) = Rows(s, e.a), s, Rows(s, e.a)) ELSE Res(~e.got, s, "nothing")
    [] e.op = "cconst" -> Res(e.sep = ":" /\ e.sn = 1 /\ e.glob = "_global" /\ e.gn = 7 /\ e.same, s, ": _global")
    [] e.op = "mkfile" -> Res(TRUE, [s EXCEPT !.files = Put(@, e.f, [k |-> e.k, kv |-> e.kv, v |-> e.v])], "")
    [] e.op = "cread" -> IF e.f = Null THEN Res(e.p = "0" /\ Bad(e), s, "failure")
                         ELSE IF ~IsFile(s, e.f) THEN Res(e.p = "0" /\ BadCode(e, 1), s, "not found")
                         ELSE LET FF == {f \in MayHold(s, e.f) : IF f.k = "cfg" THEN e.p # "0" /\ SeqToSet(e.rows) = {<<k, ReadStore(f.kv).val[k], "", IF k \in ReadStore(f.kv).ro THEN "RO" ELSE "">> : k \in DOMAIN ReadStore(f.kv).val}
                                                                          ELSE e.p = "0" /\ BadCode(e, 3)}
                              IN IF e.p = "0" /\ BadCode(e, 3) /\ \E f \in MayHold(s, e.f) : ~Writable(f) THEN Res(TRUE, s, "")
                                 ELSE IF FF = {} THEN Res(FALSE, s, MayHold(s, e.f))
                                 ELSE IF e.p = "0" THEN Res(TRUE, s, "not parsed")
                                 ELSE Res(New(s, e.p) /\ Good(e), NewCfg(s, e.p, "", ReadStore((CHOOSE f \in FF : TRUE).kv)), "a new block")
    [] e.op = "clookup" -> IF e.f = Null THEN Res(e.p = "0" /\ Bad(e), s, "failure")
                           ELSE LET S == IF Found(s, e) = {} THEN {} ELSE IF e.m THEN Found(s, e) ELSE {MinOf(Found(s, e))}
                           IN IF S = {} THEN Res(e.p = "0" /\ BadCode(e, 1), s, "not found")
                              ELSE IF \E i \in S : ~IsCfg(s, Cands(e)[i] \o e.f) THEN Res(e.p = "0" /\ BadCode(e, 3), s, "not parsed")
                              ELSE Res(New(s, e.p) /\ Good(e), NewCfg(s, e.p, "", Layers(s, e, S)), Layers(s, e, S))
    [] e.op = "cwrite" -> IF ~Given(s, e.a, "cfg") \/ e.f = Null THEN Res(Bad(e), s, "failure")
                          ELSE IF Keys(s.cf, e.a) = {} \/ Blocked(s, e.f) THEN Res(BadCode(e, 1), Emptied(s, e.f), "not written")
                          ELSE Res(Good(e), [s EXCEPT !.files = Put(@, e.f, [k |-> "cfg", v |-> "", kv |-> SetRows({<<x[1], x[2], "">> : x \in Rows(s, e.a)})])], "written")

-----------------------------------------------------------------------------
(* tracks: a set is a list of <<the track, its number of states>> *)
RealTracks(q) == SelectSeq(q, LAMBDA x : x > 0)
TrackStep(s, e) ==
  CASE e.op = "tnew" -> Res(New(s, e.p), Born(s, e.p, "track", 1, {}, 0), "a new track")
    [] e.op = "tdestroy" -> Release(s, e, Given(s, e.a, "track"))
    [] e.op = "tsize" -> Answer(s, e, Given(s, e.a, "track"), e.v = 0, e.v = 0)
    [] e.op = "tempty" -> Answer(s, e, Given(s, e.a, "track"), e.b, e.b)
    [] e.op = "snative" -> Res(New(s, e.p), [Born(s, e.p, "tset", 0, {}, e.n) EXCEPT !.native = @ \cup {e.p}], "")
    [] e.op = "sdrop" -> Res(TRUE, [s EXCEPT !.native = @ \ {e.a}], "")
    [] e.op = "sfrom" -> IF e.a = "0" THEN Res(e.p = "0", s, "null") ELSE Res(e.p = e.a, Hand(s, e.a), "the same set")
    [] e.op = "snew" -> IF \A i \in 1..Len(e.m) : Given(s, e.m[i], "track")
                        THEN Res(New(s, e.p), Born(s, e.p, "tset", 1, SeqToSet(e.m), [i \in 1..Len(e.m) |-> 0]), "a new set") ELSE Res(e.p = "0", s, "null")
    [] e.op = "sdestroy" -> Release(s, e, Given(s, e.a, "tset"))
    [] e.op = "ssize" -> Answer(s, e, Given(s, e.a, "tset"), e.v = Len(s.dat[e.a]), e.v = 0)
    [] e.op = "swrite" -> IF Given(s, e.a, "tset") /\ s.dat[e.a] # <<>> /\ e.f # Null /\ ~Blocked(s, e.f)
                          THEN Res(Good(e), [s EXCEPT !.files = Put(@, e.f, [k |-> "tracks", kv |-> RealTracks(s.dat[e.a]), v |-> ""])], "written") ELSE Res(Bad(e), s, "failure")
    [] e.op = "sread" -> IF In(e.f, s.files) /\ s.files[e.f].k = "tracks"
                         THEN Res(New(s, e.p) /\ Good(e), Born(s, e.p, "tset", 1, {}, s.files[e.f].kv), "a new set")
                         ELSE Res(e.p = "0" /\ BadMsg(e), s, "failure")
(* cameras: a map is a list of <<camera, frame>> with different frames *)
CamPairs(m) == {<<m[i][1], m[i][2]>> : i \in {i \in 1..Len(m) : \A j \in i + 1..Len(m) : m[j][2] # m[i][2]}}
RECURSIVE HandAll(_, _)
HandAll(s, m) == IF m = <<>> THEN s ELSE HandAll(Hand(s, Head(m)[1]), Tail(m))
CameraStep(s, e) ==
  CASE e.op = "kread" -> IF In(e.f, s.files) /\ s.files[e.f].k = "cam"
                         THEN Res(New(s, e.p) /\ Good(e), Born(s, e.p, "cam", 1, {}, s.files[e.f].v), "a new camera")
                         ELSE Res(e.p = "0" /\ BadMsg(e), s, "failure")
    [] e.op = "kwrite" -> IF Given(s, e.a, "cam") /\ e.f # Null /\ ~Blocked(s, e.f)
                          THEN Res(Good(e), [s EXCEPT !.files = Put(@, e.f, [k |-> "cam", kv |-> <<>>, v |-> s.dat[e.a]])], "written") ELSE Res(Bad(e), s, "failure")
    [] e.op = "kshow" -> Res(IF In(e.f, s.files) /\ s.files[e.f].k = "cam" THEN e.v = s.files[e.f].v ELSE TRUE, s, "")
    [] e.op = "kdestroy" -> Release(s, e, Given(s, e.a, "cam"))
    [] e.op = "mnew" -> IF \A i \in 1..Len(e.m) : Given(s, e.m[i][1], "cam")
                        THEN Res(New(s, e.p), Born(s, e.p, "cmap", 1, {e.m[i][1] : i \in 1..Len(e.m)} \cap {x[1] : x \in CamPairs(e.m)}, CamPairs(e.m)), "a new map") ELSE Res(e.p = "0", s, "null")
    [] e.op = "mdestroy" -> Release(s, e, Given(s, e.a, "cmap"))
    [] e.op = "msize" -> Answer(s, e, Given(s, e.a, "cmap"), e.v = Cardinality(s.dat[e.a]), e.v = 0)
    [] e.op = "mmap" -> IF Given(s, e.a, "cmap")
                        THEN LET ok == e.got /\ Len(e.m) = Cardinality(s.dat[e.a]) /\ SeqToSet(e.m) = s.dat[e.a] /\ Good(e)
                             IN Res(ok, IF ok THEN HandAll(s, e.m) ELSE s, s.dat[e.a])
                        ELSE Res(~e.got /\ Bad(e), s, "failure")

-----------------------------------------------------------------------------
(* images: [w, h, d, ws, hs, ds] views of the bytes of a memory block *)
Planar(w, h, d) == [w |-> w, h |-> h, d |-> d, ws |-> 1, hs |-> w, ds |-> w * h]
Inter(w, h, d) == [w |-> w, h |-> h, d |-> d, ws |-> d, hs |-> d * w, ds |-> 1]
Vol(g) == g.w * g.h * g.d
Mem(o) == IF o = "" THEN {} ELSE {o}
\* a new image over memory that holds bytes b
NewImage(s, e, g, b) == LET t == IF e.mem = "" THEN s ELSE Born(s, e.mem, "mem", 0, {}, b)
                        IN Res(New(s, e.p) /\ (IF Vol(g) = 0 THEN e.mem = "" ELSE New(s, e.mem)), Born(t, e.p, "img", 1, Mem(e.mem), g @@ [mem |-> e.mem]), "a new image")
\* a new image showing what x shows
ShareImage(s, e, x) == Res(New(s, e.p) /\ e.mem = x.mem, Born(s, e.p, "img", 1, Mem(x.mem), x), x)
Bytes(s, x) == IF x.mem = "" THEN <<>> ELSE s.dat[x.mem]
Offset(g, x, y, z) == x * g.ws + y * g.hs + z * g.ds + 1
\* plane by plane, row by row
Plane(s, g, z) == [i \in 1..g.w * g.h |-> Bytes(s, g)[Offset(g, (i - 1) % g.w, (i - 1) \div g.w, z)]]
RECURSIVE Planes(_, _, _)
Planes(s, g, z) == IF z >= g.d THEN <<>> ELSE Plane(s, g, z) \o Planes(s, g, z + 1)
ImageStep(s, e) ==
  CASE e.op = "inew" -> NewImage(s, e, [w |-> 0, h |-> 0, d |-> 0, ws |-> 0, hs |-> 0, ds |-> 0], <<>>)
    [] e.op = "idim" -> LET g == IF e.il THEN Inter(e.w, e.h, e.d) ELSE Planar(e.w, e.h, e.d) IN NewImage(s, e, g, [i \in 1..Vol(g) |-> 0])
    \* the pixels are copied; channels that go downwards are taken in reverse
    [] e.op = "idata" -> LET g == Planar(e.w, e.h, e.d)
                             z(i) == (i - 1) \div (e.w * e.h)
                             y(i) == ((i - 1) % (e.w * e.h)) \div e.w
                             x(i) == (i - 1) % e.w
                             src(i) == e.o + x(i) * e.ws + y(i) * e.hs + (IF e.ds >= 0 THEN z(i) * e.ds ELSE (e.d - 1 - z(i)) * (-e.ds))
                         IN NewImage(s, e, g, [i \in 1..Vol(g) |-> e.px[src(i) + 1]])
    [] e.op = "icopy" -> ShareImage(s, e, s.dat[e.a])
    [] e.op = "idestroy" -> Res(TRUE, IF e.a = "0" THEN s ELSE Drop(s, e.a), "")
    [] e.op = "iput" -> LET g == s.dat[e.a] IN Res(TRUE, [s EXCEPT !.dat[g.mem] = [@ EXCEPT ![Offset(g, e.x, e.y, e.z)] = e.v]], "")
    [] e.op = "ishow" -> LET g == s.dat[e.a]
                         IN Res(/\ e.w = g.w /\ e.h = g.h /\ e.d = g.d /\ e.size = Len(Bytes(s, g))
                                /\ e.st = <<g.ws, g.hs, g.ds>>
                                /\ e.p3 = Planes(s, g, 0) /\ e.p2 = (IF g.d = 0 THEN <<>> ELSE Plane(s, g, 0))
                                /\ e.out = <<0, 0, 0, 0, 0>>, s, <<g, Bytes(s, g)>>)
    [] e.op = "xnew" -> Res(New(s, e.p), Born(s, e.p, "imgc", 1, Mem(s.dat[e.a].mem), s.dat[e.a]), "a new container")
    [] e.op = "xdup" -> IF Given(s, e.a, "imgc") THEN Res(e.p = e.a, Hand(s, e.a), "the same container") ELSE Res(e.p = "0", s, "null")
    [] e.op = "xdestroy" -> Release(s, e, Given(s, e.a, "imgc"))
    [] e.op = "xdims" -> LET g == s.dat[e.a]
                         IN IF Given(s, e.a, "imgc") THEN Res(e.size = Len(Bytes(s, g)) /\ e.w = g.w /\ e.h = g.h /\ e.d = g.d, s, g) ELSE Res(e.size = 0 /\ e.w = 0 /\ e.h = 0 /\ e.d = 0, s, "zeros")
    [] e.op = "ximg" -> IF Given(s, e.a, "imgc") THEN ShareImage(s, e, s.dat[e.a]) ELSE Res(e.p = "0", s, "null")

-----------------------------------------------------------------------------
(* algorithms: those of the harness have a type, an implementation name and   *)
(* a parameter p that decides what they do; implementation "keeps" reports    *)
(* its own configuration block, "plain" a new one.                            *)
Impls == {"plain", "keeps"}
OwnRoot(o) == "own " \o o
PStore(p) == [val |-> "p" :> p, des |-> "p" :> "", ro |-> {}, loc |-> <<>>]
NewAlg(s, o, t, i, p) == [Born(s, o, "alg", 1, {}, [t |-> t, i |-> i, p |-> p, own |-> ""]) EXCEPT !.cf.roots = IF i = "keeps" THEN Put(@, OwnRoot(o), PStore(p)) ELSE @]
PNow(s, o) == IF s.dat[o].i = "keeps" THEN LET v == s.cf.roots[OwnRoot(o)].val IN IF In("p", v) THEN v["p"] ELSE "" ELSE s.dat[o].p
Refusals == {"refuse", "refusec", "refusei"}
\* configured with parameter q
SetP(s, o, q) == IF s.dat[o].i = "keeps" THEN [s EXCEPT !.cf.roots[OwnRoot(o)] = StoreSet(@, "p", q, "")] ELSE [s EXCEPT !.dat[o].p = q]
ReportRows(s, o) == IF s.dat[o].i = "keeps"
                    THEN LET st == s.cf.roots[OwnRoot(o)] IN {<<k, st.val[k], st.des[k], "", "">> : k \in DOMAIN st.val}
                    ELSE {<<"p", s.dat[o].p, "", "", "">>}
POf(s, c, key, otherwise) == IF Has(s.cf, c, key) THEN Val(s.cf, c, key) ELSE otherwise
TypeKey(e) == e.n \o ":type"
NestImpl(s, e) == POf(s, e.c, TypeKey(e), "")
SawTrack(e) == e.s \o " " \o e.fr \o " " \o e.x \o " " \o (IF e.y = None THEN "0" ELSE e.y)
AlgStep(s, e) ==
  CASE e.op = "acreate" -> IF e.n \in Impls THEN Res(New(s, e.p), NewAlg(s, e.p, e.t, e.n, "copy"), "a new algorithm") ELSE Res(e.p = "0", s, "null")
    [] e.op = "adestroy" -> IF GivenAlg(s, e.a, e.t) THEN Release(s, e, TRUE)
                            ELSE IF Given(s, e.a, "alg") THEN Res(Bad(e), s, "an error: an algorithm of another type") ELSE Release(s, e, FALSE)
    [] e.op = "anames" -> Res(NoDup(e.l) /\ SeqToSet(e.l) = Impls, s, Impls)
    [] e.op = "atype" -> IF Given(s, e.a, "alg") THEN Res(Text(e, s.dat[e.a].t) /\ Good(e), s, s.dat[e.a].t) ELSE Res(~e.got /\ Bad(e), s, "failure")
    [] e.op = "aimpl" -> IF Given(s, e.a, "alg") THEN Res(Text(e, s.dat[e.a].i) /\ Good(e), s, s.dat[e.a].i) ELSE Res(~e.got /\ Bad(e), s, "failure")
    [] e.op = "agetc" -> IF ~Given(s, e.a, "alg") THEN Res(e.p = "0" /\ Bad(e), s, "failure")
                         ELSE IF s.dat[e.a].i = "plain" THEN Res(New(s, e.p) /\ Good(e), NewCfg(s, e.p, "", PStore(s.dat[e.a].p)), "its parameters")
                         ELSE IF s.dat[e.a].own # "" THEN Res(e.p = s.dat[e.a].own /\ Good(e), Hand(s, s.dat[e.a].own), "its own block")
                         ELSE LET t == Born(s, e.p, "cfg", 1, {}, <<>>)
                              IN Res(New(s, e.p) /\ Good(e), [t EXCEPT !.cf.h = Put(@, e.p, [root |-> OwnRoot(e.a), pre |-> "", name |-> ""]),
                                                                       !.dat[e.a].own = e.p, !.inn[e.a] = {e.p}], "its own block")
    [] e.op = "asetc" -> IF ~(Given(s, e.a, "alg") /\ Given(s, e.c, "cfg")) THEN Res(Bad(e), s, "failure")
                         ELSE LET q == POf(s, e.c, "p", PNow(s, e.a)) IN IF q \in Refusals THEN Res(BadMsg(e), s, "refused") ELSE Res(Good(e), SetP(s, e.a, q), q)
    [] e.op = "acheck" -> IF ~(Given(s, e.a, "alg") /\ Given(s, e.c, "cfg")) THEN Res(~e.b /\ Bad(e), s, "failure")
                          ELSE LET q == POf(s, e.c, "p", "") IN IF q = "boom" THEN Res(~e.b /\ Bad(e), s, "failure") ELSE Res(e.b = (q # "bad") /\ Good(e), s, q)
    [] e.op = "agett" -> IF e.n = Null \/ ~Given(s, e.c, "cfg") \/ ~(e.a = "0" \/ GivenAlg(s, e.a, e.t)) THEN Res(Bad(e), s, "failure")
                         ELSE IF e.a = "0"
                              THEN LET t == IF Has(s.cf, e.c, TypeKey(e)) THEN s ELSE [s EXCEPT !.cf = DoSet(@, e.c, TypeKey(e), "", e.d)]
                                   IN Res(Good(e) /\ e.d = Des(t.cf, e.c, TypeKey(e)), t, "the type")
                              ELSE LET t == [s EXCEPT !.cf = DoSet(@, e.c, TypeKey(e), s.dat[e.a].i, e.d)]
                                       u == [t EXCEPT !.cf = WithStore(@, e.c, MergeRows(Store(@, e.c), @.h[e.c].pre \o e.n \o ":" \o s.dat[e.a].i \o ":", ReportRows(t, e.a)))]
                                   IN Res(Good(e), u, "the type and the parameters")
    [] e.op = "asett" -> IF e.n = Null \/ ~Given(s, e.c, "cfg") \/ ~(e.a = "0" \/ GivenAlg(s, e.a, e.t)) THEN Res(Bad(e) /\ e.p = e.a, s, "failure")
                         ELSE LET i == NestImpl(s, e)
                                  q == POf(s, e.c, e.n \o ":" \o i \o ":p", "copy")
                              IN IF i \notin Impls THEN Res(Good(e) /\ e.p = e.a, s, "left as it is")
                                 ELSE IF q \in Refusals THEN Res(BadMsg(e) /\ e.p = e.a, s, "refused")
                                 ELSE Res(Good(e) /\ New(s, e.p), NewAlg(IF e.a = "0" THEN s ELSE Drop(s, e.a), e.p, e.t, i, q), "a new algorithm")
    [] e.op = "acheckt" -> IF e.n = Null \/ ~Given(s, e.c, "cfg") THEN Res(~e.b /\ Bad(e), s, "failure")
                           ELSE LET i == NestImpl(s, e)
                                    q == POf(s, e.c, e.n \o ":" \o i \o ":p", "")
                                IN IF i \in Impls /\ q = "boom" THEN Res(~e.b /\ Bad(e), s, "failure") ELSE Res(e.b = (i \in Impls /\ q # "bad") /\ Good(e), s, i)
    [] e.op = "aclone" -> IF GivenAlg(s, e.a, e.t) THEN Res(New(s, e.p) /\ Good(e), NewAlg(s, e.p, e.t, s.dat[e.a].i, PNow(s, e.a)), "a copy")
                          ELSE Res(e.p = "0" /\ (Bad(e) \/ (e.a = "0" /\ Good(e))), s, "failure")
    [] e.op = "aconv" -> IF ~(GivenAlg(s, e.a, "convert_image") /\ Given(s, e.x, "imgc")) THEN Res(e.p = "0" /\ Bad(e), s, "failure")
                         ELSE LET q == PNow(s, e.a)
                              IN IF q \in {"boom", "null"} THEN Res(e.p = "0" /\ Bad(e), s, "failure")
                                 ELSE IF q = "same" THEN Res(e.p = e.x /\ Good(e), Hand(s, e.x), "the same container")
                                 ELSE Res(New(s, e.p) /\ Good(e), Born(s, e.p, "imgc", 1, s.inn[e.x], s.dat[e.x]), "a container of the same memory")
    [] e.op = "aload" -> IF ~GivenAlg(s, e.a, "image_io") \/ e.f = Null \/ ~IsFile(s, e.f) \/ PNow(s, e.a) \in {"boom", "null"} THEN Res(e.p = "0" /\ Bad(e), s, "failure")
                         ELSE Res(New(s, e.p) /\ New(s, e.mem) /\ Good(e),
                                  Born(Born(s, e.mem, "mem", 0, {}, <<7, 9>>), e.p, "imgc", 1, {e.mem}, Planar(2, 1, 1) @@ [mem |-> e.mem]), "a new container")
    [] e.op = "asave" -> IF ~GivenAlg(s, e.a, "image_io") \/ e.f = Null \/ ~Given(s, e.x, "imgc") \/ ~HasDir(s, e.f) \/ PNow(s, e.a) = "boom" THEN Res(e.saw = "" /\ Bad(e), s, "failure")
                         ELSE Res(e.saw = e.f \o " " \o e.x /\ Good(e), s, "saved")
    [] e.op = "atrack" -> IF ~(GivenAlg(s, e.a, "track_features") /\ Given(s, e.s, "tset") /\ Given(s, e.x, "imgc") /\ (e.y = None \/ Given(s, e.y, "imgc")))
                          THEN Res(e.p = "0" /\ e.saw = "" /\ Bad(e), s, "failure")
                          ELSE LET q == PNow(s, e.a)
                                   saw == e.saw = SawTrack(e)
                               IN IF q \in {"boom", "null"} THEN Res(e.p = "0" /\ saw /\ Bad(e), s, "failure")
                                  ELSE IF q = "same" THEN Res(e.p = e.s /\ saw /\ Good(e), Hand(s, e.s), "the same set")
                                  ELSE Res(New(s, e.p) /\ saw /\ Good(e), Born(s, e.p, "tset", 1, s.inn[e.s], Append(s.dat[e.s], 1)), "one more track")
    [] e.op = "str" -> Res(Text(e, e.v), s, e.v)

-----------------------------------------------------------------------------
ConfigOps == {"cnew", "cdestroy", "cname", "csub", "cview", "cget", "cgetd", "cgetb", "cgetbd", "cdescr", "cset", "csetd", "cunset", "cmark", "cisro", "chas",
              "cmerge", "cdump", "cconst", "mkfile", "cread", "clookup", "cwrite"}
TrackOps == {"tnew", "tdestroy", "tsize", "tempty", "snative", "sdrop", "sfrom", "snew", "sdestroy", "ssize", "swrite", "sread"}
CameraOps == {"kread", "kwrite", "kshow", "kdestroy", "mnew", "mdestroy", "msize", "mmap"}
ImageOps == {"inew", "idim", "idata", "icopy", "idestroy", "iput", "ishow", "xnew", "xdup", "xdestroy", "xdims", "ximg"}
AlgOps == {"acreate", "adestroy", "anames", "atype", "aimpl", "agetc", "asetc", "acheck", "agett", "asett", "acheckt", "aclone", "aconv", "aload", "asave", "atrack", "str"}
Do(s, e) == CASE e.op \in ConfigOps -> ConfigStep(s, e)
              [] e.op \in TrackOps -> TrackStep(s, e)
              [] e.op \in CameraOps -> CameraStep(s, e)
              [] e.op \in ImageOps -> ImageStep(s, e)
              [] e.op \in AlgOps -> AlgStep(s, e)
CStep(s, e) ==
  IF e.op = "reset" THEN Res(TRUE, AInit, "")
  ELSE IF e.op \notin ConfigOps \cup TrackOps \cup CameraOps \cup ImageOps \cup AlgOps THEN Res(FALSE, s, "no abnormal termination")
  ELSE LET r == Do(s, e)
           F == SeqToSet(e.freed)
       IN IF ~r.ok THEN r
          ELSE Res(FreedOK(r.st, F), [r.st EXCEPT !.gone = @ \cup F], <<"freed: all but", May(r.st), "and none of", Must(r.st)>>)
=============================================================================
