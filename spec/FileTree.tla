------------------------------ MODULE FileTree ------------------------------
(* A tree of files, directories and links as its owner (who is not the       *)
(* superuser) sees it, and the file-system helpers on it.                    *)
(* fs: the nodes by their path ("" is the root, "a/b" is b in a):            *)
(*   t  "f", "d" or "l"; m the permissions; d the content of a file or the   *)
(*   target of a link; n the length of the content; k the time of the last   *)
(*   modification (Now, or an old one)                                       *)
(* cwd: the path of the current directory; sys: where programs are looked for*)
EXTENDS StrUtil

Now == 9999
Dir(m) == [t |-> "d", m |-> m, d |-> "", n |-> 0, k |-> 0]
File(d, n, m) == [t |-> "f", m |-> m, d |-> d, n |-> n, k |-> Now]
Link(d) == [t |-> "l", m |-> 0, d |-> d, n |-> 0, k |-> 0]
SInit == [fs |-> ("" :> Dir(493)), cwd |-> "", sys |-> <<>>]
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]

CanR(m) == (m \div 256) % 2 = 1
CanW(m) == (m \div 128) % 2 = 1
CanX(m) == (m \div 64) % 2 = 1
RECURSIVE Pieces(_)
Pieces(t) == LET i == FindIn(t, {"/"}, 1) IN IF i > Len(t) THEN <<t>> ELSE <<UpTo(t, i - 1)>> \o Pieces(From(t, i + 1))
Comps(t) == SelectSeq(Pieces(t), LAMBDA x : x # "")
Abs(t) == t # "" /\ Ch(t, 1) = "/"
Slash(t) == t # "" /\ Ch(t, Len(t)) = "/"
Par(p) == LET i == RFindIn(p, {"/"}, Len(p)) IN UpTo(p, i - 1)
In(p, c) == IF p = "" THEN c ELSE p \o "/" \o c
NameOf(t) == From(t, RFindIn(t, {"/"}, Len(t)) + 1)
Under(p, q) == p = "" \/ q = p \/ StartsWith(q, p \o "/")

\* ---- finding the node of a path text: r "ok" with its path p, or what is wrong; "noent" with the path p it would have
Found(r, p) == [r |-> r, p |-> p]
RECURSIVE W(_, _, _, _, _)
W(fs, at, c, follow, n) ==
  IF c = <<>> THEN Found("ok", at)
  ELSE IF fs[at].t # "d" THEN Found("notdir", "?")
  ELSE IF ~CanX(fs[at].m) THEN Found("acces", "?")
  ELSE IF Head(c) = "." THEN W(fs, at, Tail(c), follow, n)
  ELSE IF Head(c) = ".." THEN W(fs, Par(at), Tail(c), follow, n)
  ELSE LET p == In(at, Head(c)) IN
    IF p \notin DOMAIN fs THEN (IF Len(c) = 1 THEN Found("noent", p) ELSE Found("noent", "?"))
    ELSE IF fs[p].t = "l" /\ (follow \/ Len(c) > 1)
         THEN IF n >= 40 THEN Found("loop", "?") ELSE W(fs, IF Abs(fs[p].d) THEN "" ELSE at, Comps(fs[p].d) \o Tail(c), follow, n + 1)
    ELSE W(fs, p, Tail(c), follow, n)
Walk(s, t, follow) ==
  IF t = "" THEN Found("noent", "?")
  ELSE LET w == W(s.fs, IF Abs(t) THEN "" ELSE s.cwd, Comps(t), follow \/ Slash(t), 0)
       IN IF Slash(t) /\ w.r = "ok" /\ s.fs[w.p].t # "d" THEN Found("notdir", "?") ELSE w
Stat(s, t) == Walk(s, t, TRUE)
LStat(s, t) == Walk(s, t, FALSE)
Node(s, w) == s.fs[w.p]
Is(s, t, type) == LET w == Stat(s, t) IN w.r = "ok" /\ Node(s, w).t = type
IsDir(s, t) == Is(s, t, "d")
IsLink(s, t) == LET w == LStat(s, t) IN w.r = "ok" /\ Node(s, w).t = "l"
Readable(s, t) == LET w == Stat(s, t) IN w.r = "ok" /\ CanR(Node(s, w).m)
Access(s, t, mode) == LET w == Stat(s, t) IN w.r = "ok" /\ LET m == Node(s, w).m IN
  (mode \div 4 = 1 => CanR(m)) /\ ((mode \div 2) % 2 = 1 => CanW(m)) /\ (mode % 2 = 1 => CanX(m))
MayAdd(s, p) == LET m == s.fs[Par(p)].m IN CanW(m) /\ CanX(m)
Children(s, p) == {q \in DOMAIN s.fs : q # "" /\ Par(q) = p}
Names(s, p) == {NameOf(q) : q \in Children(s, p)}
Listable(s, t) == IsDir(s, t) /\ CanR(Node(s, Stat(s, t)).m)

\* ---- elementary changes: [ok, s]
Done(ok, s) == [ok |-> ok, s |-> s]
Put(s, p, node) == [s EXCEPT !.fs = (p :> node) @@ @]
MkDir1(s, t) == LET w == LStat(s, t) IN IF w.r = "noent" /\ w.p # "?" /\ MayAdd(s, w.p) THEN Done(TRUE, Put(s, w.p, Dir(493))) ELSE Done(FALSE, s)
Drop(s, ps) == [s EXCEPT !.fs = [p \in DOMAIN s.fs \ ps |-> s.fs[p]]]
\* why: "noent" when there is nothing to remove
Unlink(s, t) == LET w == LStat(s, t) IN
  IF w.r # "ok" THEN [ok |-> FALSE, s |-> s, why |-> w.r]
  ELSE IF Node(s, w).t = "d" \/ ~MayAdd(s, w.p) THEN [ok |-> FALSE, s |-> s, why |-> "other"]
  ELSE [ok |-> TRUE, s |-> Drop(s, {w.p}), why |-> ""]
\* an empty file to write to, at the end of links
Create(s, t) == LET w == Stat(s, t) IN
  IF Slash(t) THEN Done(FALSE, s)
  ELSE IF w.r = "ok" THEN (IF Node(s, w).t = "f" /\ CanW(Node(s, w).m) THEN Done(TRUE, s) ELSE Done(FALSE, s))
  ELSE IF w.r = "noent" /\ w.p # "?" /\ MayAdd(s, w.p) THEN Done(TRUE, Put(s, w.p, File("", 0, 420))) ELSE Done(FALSE, s)

\* ---- the helpers
RECURSIVE Prefixes(_, _)
Prefixes(t, i) == LET j == FindIn(t, {"/"}, i) IN IF j > Len(t) THEN <<t>> ELSE <<UpTo(t, j - 1)>> \o Prefixes(t, j + 1)
RECURSIVE MkAll(_, _)
MkAll(s, ts) == IF ts = <<>> THEN s ELSE MkAll(MkDir1(s, Head(ts)).s, Tail(ts))
Trimmed(t) == IF Len(t) > 1 /\ Slash(t) THEN UpTo(t, Len(t) - 1) ELSE t
MkDir(s, t) == IF t = "" THEN Done(FALSE, s) ELSE IF Readable(s, t) THEN Done(IsDir(s, t), s) ELSE LET u == MkAll(s, Prefixes(Trimmed(t), 1)) IN Done(IsDir(u, t), u)
DirText(t) == LET i == RFindIn(t, {"/"}, Len(t)) IN IF i <= 1 THEN UpTo(t, i) ELSE UpTo(t, i - 1)
Same(s, a, b) == LET x == Stat(s, a)
                     y == Stat(s, b)
                 IN x.r = "ok" /\ y.r = "ok" /\ x.p = y.p
\* two files; directories do not compare
Differ(s, a, b) == LET x == Stat(s, a)
                       y == Stat(s, b)
                   IN x.r # "ok" \/ y.r # "ok" \/ Node(s, x).t # Node(s, y).t \/ Node(s, x).d # Node(s, y).d \/ (Node(s, x).n > 0 /\ ~(CanR(Node(s, x).m) /\ CanR(Node(s, y).m)))
Into(s, src, dst) == IF IsDir(s, dst) THEN Trimmed(dst) \o (IF dst = "/" THEN "" ELSE "/") \o NameOf(src) ELSE dst
\* all: how far a copy that fails may have got
Outcome(ok, s, all) == [ok |-> ok, s |-> s, all |-> all \cup {s}]
Copy(s, src, dst) ==
  LET x == Stat(s, src)
      real == Into(s, src, dst)
      mode == Node(s, x).m
  IN IF Same(s, src, dst) THEN Outcome(TRUE, s, {})
     ELSE IF x.r = "ok" /\ Node(s, x).t = "d" THEN LET u == MkDir(s, dst) IN IF ~u.ok THEN Outcome(FALSE, u.s, {s}) ELSE Outcome(TRUE, Put(u.s, Stat(u.s, dst).p, [Node(u.s, Stat(u.s, dst)) EXCEPT !.m = mode]), {})
     ELSE LET u == MkDir(s, IF real # dst THEN dst ELSE DirText(dst)).s IN
       IF Same(u, src, real) THEN Outcome(TRUE, u, {})
       ELSE IF x.r # "ok" \/ ~CanR(mode) THEN Outcome(FALSE, u, {s})
       ELSE LET v == Unlink(u, real).s
                w == Create(v, real)
                at == Stat(w.s, real).p
            IN IF ~w.ok THEN Outcome(FALSE, w.s, {s, u, v}) ELSE Outcome(TRUE, Put(w.s, at, [Node(s, x) EXCEPT !.k = Now]), {})
Target(s, src, dst) == IF IsDir(s, dst) THEN Trimmed(dst) \o "/" \o NameOf(src) ELSE dst
CopyA(s, src, dst, always) == IF always \/ Differ(s, src, Target(s, src, dst)) THEN Copy(s, src, dst) ELSE Outcome(TRUE, s, {})
RECURSIVE CopyTree(_, _, _, _), CopyAll(_, _, _, _, _)
CopyTree(s, src, dst, always) ==
  IF ~Listable(s, src) THEN Done(FALSE, s) ELSE LET u == MkDir(s, dst) IN IF ~u.ok THEN u ELSE CopyAll(u.s, src, dst, Names(s, Stat(s, src).p), always)
CopyAll(s, src, dst, names, always) ==
  IF names = {} THEN Done(TRUE, s)
  ELSE LET c == CHOOSE c \in names : TRUE
           f == src \o "/" \o c
           u == IF IsDir(s, f) THEN CopyTree(s, f, dst \o "/" \o c, always) ELSE CopyA(s, f, dst, always)
       IN IF ~u.ok THEN Done(FALSE, s) ELSE CopyAll(u.s, src, dst, names \ {c}, always)
RmFile(s, t) == LET u == Unlink(s, t) IN Done(u.ok \/ u.why = "noent", u.s)
\* only of a directory itself, not through a link
RmTree(s, t) ==
  LET w == LStat(s, t)
      all == {q \in DOMAIN s.fs : Under(w.p, q)}
      \* write permission is added where it is missing
      fine == \A q \in all : s.fs[q].t = "d" /\ Children(s, q) # {} => CanR(s.fs[q].m) /\ CanX(s.fs[q].m)
  IN IF w.r # "ok" \/ w.p = "" THEN Done(FALSE, s)
     ELSE IF Node(s, w).t # "d" \/ ~MayAdd(s, w.p) \/ ~fine THEN Done(FALSE, s) ELSE Done(TRUE, Drop(s, all))
Touch(s, t, create) ==
  IF Readable(s, t) THEN LET w == Stat(s, t) IN Done(TRUE, IF Node(s, w).t = "f" THEN Put(s, w.p, [Node(s, w) EXCEPT !.k = Now]) ELSE s)
  ELSE IF ~create THEN Done(TRUE, s)
  ELSE IF Stat(s, t).r = "ok" THEN Done(FALSE, s) ELSE Create(s, t)

\* ---- searching
Full(s, t) == LET c == Comps(IF Abs(t) THEN t ELSE s.cwd \o "/" \o t) IN "/" \o JoinWith(SelectSeq(c, LAMBDA x : x # "."), "/")
\* the first of the directories where name is what is looked for
TryText(d, name) == d \o (IF Slash(d) THEN "" ELSE "/") \o name
FirstOf(s, dirs, name, Q(_, _)) == LET I == {i \in DOMAIN dirs : Q(s, TryText(dirs[i], name))} IN IF I = {} THEN "" ELSE Full(s, TryText(dirs[CHOOSE i \in I : \A j \in I : i <= j], name))
IsProgram(s, t) == Readable(s, t) /\ ~IsDir(s, t)
IsSomeDir(s, t) == Readable(s, t) /\ IsDir(s, t)
Dirs(s, e) == (IF e.nosys THEN <<>> ELSE s.sys) \o e.dirs
Find(s, e) == CASE e.what = "file" -> FirstOf(s, Dirs(s, e), e.name, IsProgram)
                [] e.what = "dir" -> FirstOf(s, Dirs(s, e), e.name, IsSomeDir)
                [] e.what = "program" -> IF IsProgram(s, e.name) THEN Full(s, e.name) ELSE FirstOf(s, Dirs(s, e), e.name, IsProgram)
\* a file of that name in dir (in the directory of dir, when dir is none); then in what the directories of the name lead to from there
LocateDir(s, dir) == IF IsDir(s, dir) THEN dir ELSE DirText(dir)
RECURSIVE Tails(_, _)
Tails(c, base) == IF c = <<>> THEN <<>> ELSE LET b == c[Len(c)] \o "/" \o base IN <<b>> \o Tails(SubSeq(c, 1, Len(c) - 1), b)
LocateTries(s, name, dir, deep) == LET d == LocateDir(s, dir)
                                       at(x) == (IF d = "" \/ Slash(d) THEN d ELSE d \o "/") \o x
                                       c == Comps(DirText(name))
                                       t == Tails(c, "")
                                   IN <<at(NameOf(name))>> \o (IF deep THEN [i \in DOMAIN t |-> at(t[i]) \o NameOf(name)] ELSE <<>>)
Locate(s, name, dir, deep) == LET T == LocateTries(s, name, dir, deep)
                                  I == {i \in DOMAIN T : Readable(s, T[i])}
                              IN IF NameOf(name) = "" \/ I = {} THEN "" ELSE T[CHOOSE i \in I : \A j \in I : i <= j]

\* ---- wildcard patterns
Class(c, i) == \* the end of the bracket expression that begins at i, or 0
  LET a == IF i + 1 <= Len(c) /\ Ch(c, i + 1) \in {"!", "^"} THEN i + 2 ELSE i + 1
      b == IF a <= Len(c) /\ Ch(c, a) = "]" THEN a + 1 ELSE a
      e == FindIn(c, {"]"}, b)
  IN IF e > Len(c) THEN 0 ELSE e
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Pos(c) == FindIn(Printable, {c}, 1)
RECURSIVE InSet(_, _)
InSet(t, c) == IF t = "" THEN FALSE
               ELSE IF Len(t) >= 3 /\ Ch(t, 2) = "-" THEN (Pos(Ch(t, 1)) <= Pos(c) /\ Pos(c) <= Pos(Ch(t, 3))) \/ InSet(From(t, 4), c)
               ELSE Ch(t, 1) = c \/ InSet(From(t, 2), c)
InClass(t, c) == IF Ch(t, 1) \in {"!", "^"} THEN ~InSet(From(t, 2), c) ELSE InSet(t, c)
RECURSIVE Match(_, _)
Match(p, t) ==
  IF p = "" THEN t = ""
  ELSE LET c == Ch(p, 1)
           e == IF c = "[" THEN Class(p, 1) ELSE 0
       IN IF c = "*" THEN Match(From(p, 2), t) \/ (t # "" /\ Ch(t, 1) # "/" /\ Match(p, From(t, 2)))
          ELSE t # "" /\ IF c = "?" THEN Ch(t, 1) # "/" /\ Match(From(p, 2), From(t, 2))
                         ELSE IF e > 0 THEN InClass(SubSeq(p, 2, e - 1), Ch(t, 1)) /\ Match(From(p, e + 1), From(t, 2))
                         ELSE Ch(t, 1) = c /\ Match(From(p, 2), From(t, 2))
\* what is before the first component with a wildcard is taken as it is
WholeText(s, t) == IF Abs(t) THEN t ELSE "/" \o (IF s.cwd = "" THEN "" ELSE s.cwd \o "/") \o t
Fixed(t) == LET i == FindIn(t, {"*", "?", "["}, 1) IN RFindIn(t, {"/"}, IF i > Len(t) THEN Len(t) ELSE i)
Join2(d, c) == IF d = "/" THEN "/" \o c ELSE d \o "/" \o c
Leaf(s, q) == NameOf(q)
RECURSIVE Rec(_, _, _, _, _), Expand(_, _, _, _)
\* everything below d: directories (through links, but not from a directory whose link is being followed), and the files that match
Rec(s, d, pat, g, seen) ==
  IF ~Listable(s, d) THEN {}
  ELSE LET at == Stat(s, d).p IN UNION { LET f == Join2(d, c) IN
         IF IsDir(s, f) /\ (~IsLink(s, f) \/ g.links)
         THEN (IF IsLink(s, f) /\ at \in seen THEN {} ELSE (IF g.rld THEN {f} ELSE {}) \cup Rec(s, f, pat, g, IF IsLink(s, f) THEN seen \cup {at} ELSE seen))
         ELSE IF Match(pat, c) THEN {f} ELSE {} : c \in Names(s, at) }
Expand(s, d, pats, g) ==
  IF pats = <<>> \/ (~(Len(pats) = 1 /\ g.rec) /\ ~Listable(s, d)) THEN {}
  ELSE IF Len(pats) = 1 /\ g.rec THEN Rec(s, d, pats[1], g, {})
  ELSE LET C == {c \in Names(s, Stat(s, d).p) : Match(pats[1], c)} IN
    IF Len(pats) = 1 THEN {Join2(d, c) : c \in {c \in C : g.ld \/ ~IsDir(s, Join2(d, c))}}
    ELSE UNION {Expand(s, Join2(d, c), Tail(pats), g) : c \in {c \in C : IsDir(s, Join2(d, c))}}
RECURSIVE Common(_, _)
Common(a, b) == IF a = <<>> \/ b = <<>> THEN 0 ELSE IF Head(a) = Head(b) THEN 1 + Common(Tail(a), Tail(b)) ELSE 0
RelText(from, t) == LET a == Comps(from)
                        b == Comps(t)
                        n == Common(a, b)
                    IN JoinWith([i \in 1..Len(a) - n |-> ".."] \o SubSeq(b, n + 1, Len(b)), "/") \o (IF n = Len(b) /\ n < Len(a) THEN "/" ELSE "")
Glob(s, e) == LET t == WholeText(s, e.p)
                  i == Fixed(t)
                  F == Expand(s, IF i = 1 THEN "/" ELSE UpTo(t, i - 1), Comps(From(t, i + 1)), e)
              IN IF e.rel = "" THEN F ELSE {RelText(e.rel, f) : f \in F}

\* ---- contents
Plain(d) == ~StartsWith(d, "RLE:")
Text(c) == c \in {"\n", "\r", "\t"} \/ Pos(c) <= Len(Printable)
Sample(d, n) == IF Len(d) < n THEN d ELSE UpTo(d, n)
Kinds(s, e) == LET w == Stat(s, e.p) IN
  IF ~Readable(s, e.p) \/ IsDir(s, e.p) THEN {"unknown"}
  ELSE LET d == Sample(Node(s, w).d, e.n)
           bin == Cardinality({i \in 1..Len(d) : ~Text(Ch(d, i))})
       IN IF d = "" THEN {"unknown"} ELSE (IF 100 * bin >= e.percent * Len(d) THEN {"binary"} ELSE {}) \cup (IF 100 * bin <= e.percent * Len(d) THEN {"text"} ELSE {})
Signed(s, e) == Readable(s, e.p) /\ ~IsDir(s, e.p) /\ LET d == Node(s, Stat(s, e.p)).d IN Len(d) >= e.off + Len(e.sig) /\ SubSeq(d, e.off + 1, e.off + Len(e.sig)) = e.sig

\* ---- what a helper may do when it reports failure
But(a, b, S) == \A p \in (DOMAIN a \cup DOMAIN b) \ S : p \in DOMAIN a /\ p \in DOMAIN b /\ a[p] = b[p]
Below(fs, p) == {q \in DOMAIN fs : Under(p, q)}
RmLeft(s, t, fs) == LET w == LStat(s, t) IN
  IF w.r # "ok" THEN fs = s.fs
  ELSE But(s.fs, fs, Below(s.fs, w.p)) /\ \A q \in Below(s.fs, w.p) \cap DOMAIN fs : fs[q] = s.fs[q] \/ (s.fs[q].t = "d" /\ [fs[q] EXCEPT !.m = 0] = [s.fs[q] EXCEPT !.m = 0])
CopyLeft(s, dst, fs) ==
  LET u == MkDir(s, dst).s
      w == Stat(u, dst)
      D == Below(u.fs, w.p) \cup Below(fs, w.p)
      L == {Stat(u, "/" \o l).p : l \in {l \in D \cap DOMAIN u.fs : u.fs[l].t = "l"}}
  IN fs = s.fs \/ fs = u.fs \/ (w.r = "ok" /\ But(u.fs, fs, D \cup UNION {Below(u.fs, l) \cup Below(fs, l) : l \in L \ {"?"}}))

RECURSIVE TreeOf(_, _)
TreeOf(a, i) == IF i > Len(a) THEN [p \in {} |-> 0] ELSE (a[i].p :> [t |-> a[i].t, m |-> a[i].m, d |-> a[i].d, n |-> a[i].n, k |-> a[i].k]) @@ TreeOf(a, i + 1)
Seen(s, e) == IF e.chg THEN TreeOf(e.tree, 1) ELSE s.fs
\* a question: nothing changes
Ask(s, e, answer) == Res(e.r = answer /\ ~e.chg, s, answer)
Adopt(s, e) == [s EXCEPT !.fs = Seen(s, e)]
\* a change that did what u says, or failed and left something of ok
Change(s, e, u) == Res(e.r = u.ok /\ Seen(s, e) = u.s.fs, u.s, u)

Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, SInit, "")
    \* the harness itself
    [] e.op \in {"write", "stamp"} -> Res(TRUE, Adopt(s, e), "")
    [] e.op = "sys" -> Res(TRUE, [s EXCEPT !.sys = e.dirs], "")
    [] e.op = "exists" -> LET r == Readable(s, e.p) IN Res(e.r = r /\ e.file = (r /\ ~IsDir(s, e.p)) /\ e.any = r /\ ~e.chg, s, <<r, IsDir(s, e.p)>>)
    [] e.op = "access" -> Ask(s, e, Access(s, e.p, e.mode))
    [] e.op = "isdir" -> Ask(s, e, IsDir(s, e.p))
    [] e.op = "islink" -> Ask(s, e, IsLink(s, e.p))
    [] e.op = "len" -> IF IsDir(s, e.p) THEN Res(~e.chg, s, "") ELSE LET w == Stat(s, e.p) IN Ask(s, e, IF w.r = "ok" THEN Node(s, w).n ELSE 0)
    [] e.op = "same" -> Ask(s, e, Same(s, e.p, e.q))
    [] e.op = "differ" -> IF IsDir(s, e.p) /\ IsDir(s, e.q) THEN Res(~e.chg, s, "") ELSE Ask(s, e, Differ(s, e.p, e.q))
    [] e.op = "times" -> LET x == Stat(s, e.p)
                             y == Stat(s, e.q)
                             ok == x.r = "ok" /\ y.r = "ok"
                             a == Node(s, x)
                             b == Node(s, y)
                         IN Res(e.r = ok /\ ~e.chg /\ (IF ~ok THEN e.c = 0 ELSE IF a.t = "d" \/ b.t = "d" \/ (a.k = Now /\ b.k = Now /\ x.p # y.p) THEN e.c \in {-1, 0, 1} ELSE e.c = (IF a.k < b.k THEN -1 ELSE IF a.k > b.k THEN 1 ELSE 0)), s, <<ok, x, y>>)
    [] e.op = "perms" -> LET w == Stat(s, e.p) IN Ask(s, e, IF w.r = "ok" THEN Node(s, w).m ELSE -1)
    [] e.op = "chmod" -> LET w == Stat(s, e.p)
                             m == IF e.mask THEN e.m - ((e.m \div 16) % 2) * 16 - ((e.m \div 2) % 2) * 2 ELSE e.m
                         IN Change(s, e, IF w.r = "ok" THEN Done(TRUE, Put(s, w.p, [Node(s, w) EXCEPT !.m = m])) ELSE Done(FALSE, s))
    [] e.op = "link" -> LET w == LStat(s, e.p) IN Change(s, e, IF e.to # "" /\ ~Slash(e.p) /\ w.r = "noent" /\ w.p # "?" /\ MayAdd(s, w.p) THEN Done(TRUE, Put(s, w.p, Link(e.to))) ELSE Done(FALSE, s))
    [] e.op = "readlink" -> IF IsLink(s, e.p) THEN Ask(s, e, Node(s, LStat(s, e.p)).d) ELSE Ask(s, e, "<none>")
    [] e.op = "real" -> LET w == Stat(s, e.p) IN Res(~e.chg /\ (IF w.r = "ok" THEN e.r = "/" \o w.p /\ e.msg = "" /\ e.plain = e.r ELSE e.r = "" /\ e.msg # "" /\ e.plain = e.p), s, w)
    [] e.op = "mkdir" -> Change(s, e, MkDir(s, e.p))
    [] e.op = "touch" -> IF ~Readable(s, e.p) /\ Stat(s, e.p).r = "ok" THEN Res(~e.chg, s, "") ELSE Change(s, e, Touch(s, e.p, e.create))
    \* what a directory is compared by is left open
    [] e.op = "copy" /\ ~e.always /\ IsDir(s, e.p) -> Res(Seen(s, e) \in {v.fs : v \in Copy(s, e.p, e.q).all \cup {s}}, Adopt(s, e), "")
    \* nothing to copy, until the directory to copy it to is made
    [] e.op = "copy" /\ Stat(s, e.p).r = "noent" /\ Stat(MkDir(s, DirText(e.q)).s, e.p).r = "ok" -> Res(CopyLeft(s, DirText(e.q), Seen(s, e)), Adopt(s, e), "")
    [] e.op = "copy" -> LET u == CopyA(s, e.p, e.q, e.always) IN Res(e.r = u.ok /\ (IF u.ok THEN Seen(s, e) = u.s.fs ELSE Seen(s, e) \in {v.fs : v \in u.all}), Adopt(s, e), <<u.ok, {v.fs : v \in u.all}>>)
    [] e.op = "copytree" -> LET u == CopyTree(s, e.p, e.q, e.always) IN Res(e.r = u.ok /\ (IF u.ok THEN Seen(s, e) = u.s.fs ELSE CopyLeft(s, e.q, Seen(s, e))), Adopt(s, e), u)
    [] e.op = "rmfile" -> IF LStat(s, e.p).r = "notdir" THEN Res(~e.chg, s, "") ELSE Change(s, e, RmFile(s, e.p))
    [] e.op = "rmtree" -> LET u == RmTree(s, e.p) IN Res(e.r = u.ok /\ (IF u.ok THEN Seen(s, e) = u.s.fs ELSE RmLeft(s, e.p, Seen(s, e))), Adopt(s, e), u)
    [] e.op = "list" -> LET w == Stat(s, e.p)
                            ok == Listable(s, e.p)
                            n == IF ok THEN Cardinality(Children(s, w.p)) + 2 ELSE 0
                        IN Res(e.r = ok /\ ~e.chg /\ e.n = n /\ e.count = n /\ e.beyond /\ Len(e.names) = n /\ SeqToSet(e.names) = (IF ok THEN Names(s, w.p) \cup {".", ".."} ELSE {}) /\ e.path = (IF ok THEN e.p ELSE ""), s, <<ok, n>>)
    [] e.op = "cd" -> LET w == Stat(s, e.p)
                          ok == w.r = "ok" /\ Node(s, w).t = "d" /\ CanX(Node(s, w).m)
                          t == IF ok THEN [s EXCEPT !.cwd = w.p] ELSE s
                      IN Res(e.r = ok /\ e.cwd = "/" \o t.cwd /\ ~e.chg, t, t.cwd)
    [] e.op = "find" -> Ask(s, e, Find(s, e))
    [] e.op = "locate" -> Ask(s, e, Locate(s, e.p, e.q, e.deep))
    [] e.op = "glob" -> Res(e.r /\ SeqToSet(e.files) = Glob(s, e) /\ Len(e.files) = Cardinality(SeqToSet(e.files)) /\ ~e.chg, s, Glob(s, e))
    [] e.op = "pmatch" -> Ask(s, e, Match(e.p, e.t))
    [] e.op \in {"signed", "kind"} /\ Is(s, e.p, "f") /\ ~Plain(Node(s, Stat(s, e.p)).d) -> Res(~e.chg, s, "")
    [] e.op = "signed" -> Ask(s, e, Signed(s, e))
    [] e.op = "kind" -> Res(e.r \in Kinds(s, e) /\ ~e.chg, s, Kinds(s, e))
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
