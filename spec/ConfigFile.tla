----------------------------- MODULE ConfigFile -----------------------------
(* Configuration files: line syntax, blocks, includes, macros, read-only     *)
(* flags, relative paths, the search for included and application            *)
(* configuration files, and writing.  The state is a small file system, the  *)
(* environment and the working directory; reading is a function of it.       *)
EXTENDS StrUtil

-----------------------------------------------------------------------------
(* Paths.  "@" is the scratch root (an absolute path).                       *)
IsAbs(p) == Len(p) > 0 /\ Ch(p, 1) \in {"@", "/"}
RECURSIVE SplitOn(_, _)
SplitOn(p, sep) == LET i == FindIn(p, {sep}, 1)
                   IN IF i > Len(p) THEN <<p>> ELSE <<SubSeq(p, 1, i - 1)>> \o SplitOn(From(p, i + 1), sep)
RECURSIVE Squash(_, _)
Squash(acc, q) == IF q = <<>> THEN acc
                  ELSE IF Head(q) \in {"", "."} THEN Squash(acc, Tail(q))
                  ELSE IF Head(q) = ".." THEN Squash(IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1), Tail(q))
                  ELSE Squash(Append(acc, Head(q)), Tail(q))
Collapse(p, cwd) == LET a == IF IsAbs(p) THEN p ELSE cwd \o "/" \o p
                        q == Squash(<<>>, SplitOn(a, "/"))
                    IN IF Ch(a, 1) = "/" THEN "/" \o JoinWith(q, "/") ELSE JoinWith(q, "/")
DirOf(p) == LET i == RFindIn(p, {"/"}, Len(p)) IN IF i = 0 THEN "." ELSE IF i = 1 THEN "/" ELSE UpTo(p, i - 1)

-----------------------------------------------------------------------------
(* State: files maps absolute file names to their lines, dirs is the set of  *)
(* directories.                                                              *)
FInit == [files |-> <<>>, dirs |-> {"@"}, env |-> <<>>, cwd |-> "@", sys |-> <<>>]
IsFile(s, p) == Collapse(p, s.cwd) \in DOMAIN s.files
IsDir(s, p) == Collapse(p, s.cwd) \in s.dirs
Exists(s, p) == IsFile(s, p) \/ IsDir(s, p)
Lines(s, p) == s.files[Collapse(p, s.cwd)]
RECURSIVE Ancestors(_)
Ancestors(p) == LET d == DirOf(p) IN IF d \in {".", "/"} THEN {} ELSE {d} \cup Ancestors(d)
Env(s, n) == IF n \in DOMAIN s.env THEN s.env[n] ELSE ""

-----------------------------------------------------------------------------
(* Lexical level *)
NameFirst == Alpha
NameChars == Alpha \cup Digits \cup {"-", ".", ":", "/", "_"}
\* length of the word at the start of t: it may contain but not end with ':'
RECURSIVE BackOver(_, _)
BackOver(t, n) == IF n > 1 /\ Ch(t, n) = ":" THEN BackOver(t, n - 1) ELSE n
WordLen(t) == IF t = "" \/ Ch(t, 1) \notin NameFirst THEN 0 ELSE BackOver(t, SkipIn(t, NameChars, 1) - 1)
\* length of the flag at the start of t, 0 if there is none
FlagLen(t) == IF t = "" \/ Ch(t, 1) # "[" THEN 0
              ELSE LET j == SkipIn(t, Alpha \cup {","}, 2)
                   IN IF j > 2 /\ j <= Len(t) /\ Ch(t, j) = "]" THEN j ELSE 0
StripLine(l) == LET i == FindIn(l, {"#"}, 1) IN Trim(UpTo(l, i - 1))

RECURSIVE Flags(_, _)
Flags(t, acc) == LET n == FlagLen(t) IN IF n = 0 THEN [fl |-> acc, rest |-> t] ELSE Flags(Trim(From(t, n + 1)), Append(acc, UpTo(t, n)))

Bad == [t |-> "bad"]
\* an assignment: word flags* (= | :=) text
Assignment(t, rel) ==
  LET n == WordLen(t)
  IN IF n = 0 THEN Bad
     ELSE LET f == Flags(Trim(From(t, n + 1)), <<>>)
              unknown == \E i \in 1..Len(f.fl) : UpperStr(f.fl[i]) # "[RO]"
          IN IF StartsWith(f.rest, ":=") THEN [t |-> "local", key |-> UpTo(t, n), v |-> Trim(From(f.rest, 3)), bad |-> unknown]
             ELSE IF StartsWith(f.rest, "=") THEN [t |-> "entry", key |-> UpTo(t, n), v |-> Trim(From(f.rest, 2)),
                                                    ro |-> \E i \in 1..Len(f.fl) : UpperStr(f.fl[i]) = "[RO]", rel |-> rel, bad |-> unknown]
             ELSE Bad
Classify(line) ==
  LET t == StripLine(line)
      n == WordLen(t)
      w == UpTo(t, n)
      rest == Trim(From(t, n + 1))
  IN IF t = "" THEN [t |-> "blank"]
     ELSE IF w = "include" THEN [t |-> "include", f |-> rest]
     ELSE IF w = "block" THEN (IF WordLen(rest) = 0 THEN Bad ELSE [t |-> "block", n |-> UpTo(rest, WordLen(rest))])
     ELSE IF w = "endblock" THEN [t |-> "endblock"]
     ELSE IF w = "relativepath" THEN Assignment(rest, TRUE)
     ELSE Assignment(t, FALSE)

-----------------------------------------------------------------------------
(* Macros: $TYPE{name}, replaced left to right, replacements not rescanned   *)
MacroNameChars == Alpha \cup Digits \cup {".", "_", ":"}
\* [n |-> length of the reference at the start of t (0: none), ty, nm]
MacroAt(t) ==
  IF Len(t) < 4 \/ Ch(t, 1) # "$" \/ Ch(t, 2) \notin Alpha THEN [n |-> 0]
  ELSE LET b == SkipIn(t, Alpha \cup Digits \cup {"_"}, 2)
       IN IF b > Len(t) \/ Ch(t, b) # "{" THEN [n |-> 0]
          ELSE LET e == SkipIn(t, MacroNameChars, b + 1)
               IN IF e > Len(t) \/ Ch(t, e) # "}" THEN [n |-> 0]
                  ELSE [n |-> e, ty |-> SubSeq(t, 2, b - 1), nm |-> SubSeq(t, b + 1, e - 1)]
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE ""
Lookup(s, P, ty, nm) == CASE ty = "LOCAL" -> Get(P.syms, nm)
                          [] ty = "ENV" -> Get(s.env, nm)
                          [] ty = "CONFIG" -> IF nm \in DOMAIN P.cfg THEN P.cfg[nm].v ELSE ""
                          [] ty = "SYSENV" -> Get(s.sys, nm)
RECURSIVE Expand(_, _, _)
Expand(s, P, t) ==
  LET i == FindIn(t, {"$"}, 1)
  IN IF i > Len(t) THEN t
     ELSE LET m == MacroAt(From(t, i))
          IN IF m.n = 0 THEN UpTo(t, i) \o Expand(s, P, From(t, i + 1))
             ELSE UpTo(t, i - 1)
                  \o (IF m.ty \in {"LOCAL", "ENV", "CONFIG", "SYSENV"} THEN Lookup(s, P, m.ty, m.nm) ELSE SubSeq(t, i, i + m.n - 1))
                  \o Expand(s, P, From(t, i + m.n))

-----------------------------------------------------------------------------
(* Included files: the search path first, then the directories of the        *)
(* including files from the innermost outwards.                              *)
FirstIn(s, dirs, f) ==
  LET hits == {i \in 1..Len(dirs) : Exists(s, dirs[i] \o "/" \o f)}
  IN IF hits = {} THEN "" ELSE LET i == CHOOSE x \in hits : \A y \in hits : x <= y
                                   p == Collapse(dirs[i] \o "/" \o f, s.cwd)
                               IN IF p \in s.dirs THEN "" ELSE p
Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
ResolveInclude(s, P, f) ==
  IF IsAbs(f) THEN f
  ELSE LET a == FirstIn(s, P.sp, f)
       IN IF a # "" THEN a ELSE FirstIn(s, [i \in 1..Len(P.incs) |-> DirOf(Reverse(P.incs)[i])], f)

-----------------------------------------------------------------------------
(* Reading.  P: parser state.                                                *)
PInit(sp) == [stack |-> <<>>, ctx |-> "", syms |-> <<>>, cfg |-> <<>>, err |-> FALSE, exc |-> "", incs |-> <<>>, sp |-> sp]
RECURSIVE ParseLines(_, _, _, _, _)
ParseFile(s, P, path) == LET Q == ParseLines(s, [P EXCEPT !.incs = Append(@, path)], path, Lines(s, path), 1)
                         IN [Q EXCEPT !.incs = P.incs]
Effect(s, P, path, c, ln) ==
  CASE c.t = "blank" -> P
    [] c.t = "bad" -> [P EXCEPT !.err = TRUE]
    [] c.t = "include" -> LET f == ResolveInclude(s, P, Expand(s, P, c.f))
                          IN IF f = "" \/ ~IsFile(s, f) THEN [P EXCEPT !.exc = "!not_found"]
                             ELSE ParseFile(s, P, f)
    [] c.t = "block" -> [P EXCEPT !.stack = Append(@, P.ctx), !.ctx = P.ctx \o c.n \o ":"]
    [] c.t = "endblock" -> IF P.stack = <<>> THEN [P EXCEPT !.exc = "!not_parsed"]
                           ELSE [P EXCEPT !.ctx = P.stack[Len(P.stack)], !.stack = SubSeq(@, 1, Len(@) - 1)]
    [] c.t = "local" -> [P EXCEPT !.syms = (c.key :> Expand(s, P, c.v)) @@ @, !.err = @ \/ c.bad]
    [] c.t = "entry" ->
         LET k == P.ctx \o c.key
             x == Expand(s, P, c.v)
             v == Trim(IF c.rel THEN DirOf(path) \o "/" \o x ELSE x)
             was == k \in DOMAIN P.cfg /\ P.cfg[k].ro
         IN IF was THEN [P EXCEPT !.exc = "!set_ro", !.err = @ \/ c.bad]
            ELSE [P EXCEPT !.cfg = (k :> [v |-> v, ro |-> c.ro, file |-> path, line |-> ln]) @@ @, !.err = @ \/ c.bad]
ParseLines(s, P, path, lines, i) ==
  IF i > Len(lines) \/ P.exc # "" THEN P
  ELSE ParseLines(s, Effect(s, P, path, Classify(lines[i]), i), path, lines, i + 1)

\* result: [out |-> set of admissible outcomes, cfg]
Read(s, path, sp) ==
  IF ~IsFile(s, path) THEN [out |-> {"!not_found"}, cfg |-> <<>>]
  ELSE LET P == ParseFile(s, PInit(sp), path)
       IN IF P.exc # "" THEN [out |-> {P.exc} \cup (IF P.err THEN {"!not_parsed"} ELSE {}), cfg |-> <<>>]
          ELSE IF P.err \/ P.stack # <<>> THEN [out |-> {"!not_parsed"}, cfg |-> <<>>]
          ELSE [out |-> {"ok"}, cfg |-> P.cfg]
\* rows as observed: key, value, description, read-only, file, line
Rows(cfg) == {<<k, cfg[k].v, "", IF cfg[k].ro THEN "1" ELSE "0", cfg[k].file, ToString(cfg[k].line)>> : k \in DOMAIN cfg}
KV(cfg) == {<<k, cfg[k].v>> : k \in DOMAIN cfg}

-----------------------------------------------------------------------------
(* Application configuration files                                           *)
NoSlash(p) == IF Len(p) > 1 /\ EndsWith(p, "/") THEN UpTo(p, Len(p) - 1) ELSE p
RECURSIVE Flat(_)
Flat(qq) == IF qq = <<>> THEN <<>> ELSE Head(qq) \o Flat(Tail(qq))
NonEmpty(q) == SelectSeq(q, LAMBDA x : x # "")
PathList(v) == NonEmpty(SplitOn(v, ":"))
AppDirs(base, app, ver) == Flat([i \in 1..Len(base) |-> (IF ver = "" THEN <<>> ELSE <<base[i] \o "/" \o app \o "/" \o ver>>) \o <<base[i] \o "/" \o app>>])
ConfigPaths(s, app, ver, prefix) ==
  LET nonstd == prefix \notin {"", "/usr", "/usr/local"}
      user == PathList(Env(s, "XDG_CONFIG_HOME")) \o (IF Env(s, "HOME") # "" THEN <<Env(s, "HOME") \o "/.config">> ELSE <<>>)
              \o <<"/etc/xdg", "/etc">>
      data == AppDirs(<<"/usr/local/share", "/usr/share">> \o (IF nonstd THEN <<prefix \o "/share">> ELSE <<>>), app, ver)
  IN PathList(Env(s, "KWIVER_CONFIG_PATH")) \o AppDirs(user, app, ver)
     \o [i \in 1..Len(data) |-> data[i] \o "/config"]
     \o (IF nonstd THEN <<prefix \o "/share/config", prefix \o "/config">> ELSE <<>>)
Candidates(s, dirs, f) == SelectSeq([i \in 1..Len(dirs) |-> dirs[i] \o "/" \o f], LAMBDA p : IsFile(s, p))
RECURSIVE MergeDown(_)
MergeDown(cfgs) == IF cfgs = <<>> THEN {} ELSE
   LET rest == MergeDown(Tail(cfgs))  mine == cfgs[1]
   IN mine \cup {x \in rest : \A y \in mine : y[1] # x[1]}
\* result: [out, kv]
AppLookup(s, f, app, ver, prefix, merge) ==
  LET sp == ConfigPaths(s, app, ver, prefix)
  IN IF IsAbs(f) THEN LET r == Read(s, f, sp) IN [out |-> r.out, kv |-> KV(r.cfg)]
     ELSE LET c == Candidates(s, sp \o <<".">>, f)
              rs == [i \in 1..Len(c) |-> Read(s, c[i], sp)]
          IN IF c = <<>> THEN [out |-> {"!not_found"}, kv |-> {}]
             ELSE IF ~merge THEN [out |-> rs[1].out, kv |-> KV(rs[1].cfg)]
             ELSE LET badi == {i \in 1..Len(c) : rs[i].out # {"ok"}}
                  IN IF badi # {} THEN [out |-> UNION {rs[i].out : i \in badi}, kv |-> {}]
                     ELSE [out |-> {"ok"}, kv |-> MergeDown([i \in 1..Len(c) |-> KV(rs[i].cfg)])]

-----------------------------------------------------------------------------
(* Writing: the written lines, read by the rules above, give the same        *)
(* entries.                                                                  *)
RECURSIVE Parents(_)
Parents(p) == IF p \in {"@", ".", "/"} THEN {} ELSE {p} \cup Parents(DirOf(p))
\* a path that cannot be created: some ancestor is a file, or the name is too long
Unwritable(s, p) == IsDir(s, p) \/ (\E d \in Parents(DirOf(Collapse(p, s.cwd))) : d \in DOMAIN s.files)
                    \/ Len(p) - RFindIn(p, {"/"}, Len(p)) > 255
WriteOut(s, p, rows) == IF rows = {} \/ Unwritable(s, p) THEN "!write" ELSE "ok"

-----------------------------------------------------------------------------
(* Recorded events *)
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
ReadOk(s, e) == LET x == Read(s, e.path, e.sp)
                IN Res(e.r \in x.out /\ (e.r = "ok" => SeqToSet(e.rows) = Rows(x.cfg) /\ NoDup(e.rows)), s, x)
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, FInit, "")
    [] e.op = "file" -> LET p == Collapse(e.path, s.cwd)
                        IN Res(TRUE, [s EXCEPT !.files = (p :> e.lines) @@ @, !.dirs = @ \cup Ancestors(p)], "")
    [] e.op = "rmfile" -> LET p == Collapse(e.path, s.cwd)
                          IN Res(TRUE, [s EXCEPT !.files = [q \in DOMAIN @ \ {p} |-> @[q]]], "")
    [] e.op = "dir" -> LET p == Collapse(e.path, s.cwd) IN Res(TRUE, [s EXCEPT !.dirs = @ \cup {p} \cup Ancestors(p)], "")
    [] e.op = "chdir" -> LET p == Collapse(e.path, s.cwd) IN Res(TRUE, [s EXCEPT !.cwd = p, !.sys = ("cwd" :> p) @@ @], "")
    [] e.op = "env" -> Res(TRUE, [s EXCEPT !.env = (e.n :> e.v) @@ @], "")
    [] e.op = "unenv" -> Res(TRUE, [s EXCEPT !.env = (e.n :> "") @@ @], "")
    [] e.op = "sys" -> Res(TRUE, [s EXCEPT !.sys = (e.n :> e.v) @@ @], "")
    [] e.op = "read" -> ReadOk(s, e)
    [] e.op = "conc" -> LET bad == {i \in 1..Len(e.reads) : ~ReadOk(s, e.reads[i]).ok}
                        IN Res(bad = {}, s, {ReadOk(s, e.reads[i]).exp : i \in bad})
    [] e.op = "write" ->
         LET rows == SeqToSet(e.rows)
             want == WriteOut(s, e.path, rows)
             p == Collapse(e.path, s.cwd)
             st == [s EXCEPT !.files = (p :> e.lines) @@ @, !.dirs = @ \cup Ancestors(p)]
             x == Read(st, e.path, <<>>)
             kv == {<<r[1], Trim(r[2])>> : r \in rows}
         IN IF want # "ok" THEN Res(e.r = want, s, want)
            ELSE Res(e.r = "ok" /\ e.back = "ok" /\ x.out = {"ok"} /\ KV(x.cfg) = kv
                     /\ SeqToSet(e.brows) = kv /\ NoDup(e.brows), st, <<want, x>>)
    [] e.op = "paths" ->
         LET x == ConfigPaths(s, e.app, e.ver, e.prefix)
         IN Res([i \in 1..Len(e.l) |-> NoSlash(e.l[i])] = [i \in 1..Len(x) |-> NoSlash(x[i])], s, x)
    [] e.op = "lookup" ->
         LET x == AppLookup(s, e.f, e.app, e.ver, e.prefix, e.merge)
         IN Res(e.r \in x.out /\ (e.r = "ok" => SeqToSet(e.rows) = x.kv /\ NoDup(e.rows)), s, x)
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
============================================================================
