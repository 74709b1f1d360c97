----------------------------- MODULE MCFileTree -----------------------------
(* C35: every short sequence of helper calls on a small tree.                *)
EXTENDS FileTree, Json, CSV, IOUtils
CONSTANTS Depth, Perms, ThroughLinks
VARIABLES s, h, was
\* by elementary calls, so that scripts can do the same
Begin == <<<<"mkdir", "/a/b">>, <<"write", "/a/f", "x">>, <<"write", "/g", "y">>, <<"link", "a", "/l">>, <<"link", "../g", "/a/k">>, <<"link", "none", "/n">>>>
Start2 == [SInit EXCEPT !.fs = ("a" :> Dir(493)) @@ ("a/b" :> Dir(493)) @@ ("a/f" :> File("x", 1, 420)) @@ ("g" :> File("y", 1, 420)) @@ ("l" :> Link("a")) @@ ("a/k" :> Link("../g")) @@ ("n" :> Link("none")) @@ @]
Places == {"/a", "/a/b", "/a/f", "/a/k", "/g", "/l", "/l/b", "/n", "/c", "/c/d", "/a/b/g", "/g/x"}
Ops == {<<"mkdir", p>> : p \in Places} \cup {<<"rmfile", p>> : p \in Places} \cup {<<"rmtree", p>> : p \in Places}
  \cup {<<"copy", p, q, "1">> : p \in {"/a/f", "/g", "/l/k", "/n"}, q \in {"/a", "/a/b", "/a/f", "/a/k", "/g", "/l", "/n", "/c/d", "/a/b/g", "/g/x"}}
  \cup {<<"copytree", p, q, "1">> : p \in {"/a", "/a/b", "/g"}, q \in {"/c", "/c/d", "/g", "/l/b"}}
  \cup {<<"link", "/a/f", p>> : p \in {"/c", "/a/b/g", "/g"}} \cup {<<"touch", p, "1">> : p \in Places}
  \cup {<<"chmod", p, ToString(m), "0">> : p \in {"/a", "/a/b", "/a/f", "/a/k"}, m \in Perms}
MayCopy(t, o) == ~(o[2] = "/a" /\ Under("a", Stat(t, o[3]).p)) /\ (LET D == Stat(t, o[2]).p IN D = "?" \/ \A q \in DOMAIN t.fs : Under(D, q) /\ t.fs[q].t = "l" => Is(t, "/" \o q, "f"))
Do(t, o) ==
  CASE o[1] = "mkdir" -> MkDir(t, o[2])
    [] o[1] = "rmfile" -> RmFile(t, o[2])
    \* what it was like before: through a link
    [] o[1] = "rmtree" -> IF ThroughLinks /\ IsLink(t, o[2]) THEN Done(FALSE, Drop(t, {q \in DOMAIN t.fs : q # Stat(t, o[2]).p /\ Under(Stat(t, o[2]).p, q)})) ELSE RmTree(t, o[2])
    [] o[1] = "copy" -> LET u == Copy(t, o[2], o[3]) IN Done(u.ok, u.s)
    [] o[1] = "copytree" -> CopyTree(t, o[2], o[3], TRUE)
    [] o[1] = "link" -> LET w == LStat(t, o[3]) IN IF w.r = "noent" /\ w.p # "?" /\ MayAdd(t, w.p) THEN Done(TRUE, Put(t, w.p, Link(o[2]))) ELSE Done(FALSE, t)
    [] o[1] = "touch" -> Touch(t, o[2], TRUE)
    [] o[1] = "chmod" -> LET w == Stat(t, o[2]) IN IF w.r = "ok" THEN Done(TRUE, Put(t, w.p, [Node(t, w) EXCEPT !.m = StrToInt(o[3])])) ELSE Done(FALSE, t)
Init == s = Start2 /\ h = <<>> /\ was = [ok |-> TRUE, s |-> Start2]
Next == Len(h) < Depth /\ \E o \in Ops : (o[1] = "copytree" => MayCopy(s, o)) /\ LET u == Do(s, o) IN s' = u.s /\ h' = Append(h, o) /\ was' = [ok |-> u.ok, s |-> s]
Spec == Init /\ [][Next]_<<s, h, was>>
Op == h[Len(h)]
Is2(name) == h # <<>> /\ Op[1] = name
Tree == \A p \in DOMAIN s.fs : p = "" \/ (Par(p) \in DOMAIN s.fs /\ s.fs[Par(p)].t = "d")
Makes == Is2("mkdir") /\ was.ok => IsDir(s, Op[2]) /\ \A p \in DOMAIN was.s.fs : p \in DOMAIN s.fs /\ s.fs[p] = was.s.fs[p]
Removes == Is2("rmfile") /\ was.ok => LStat(s, Op[2]).r = "noent" /\ Cardinality(DOMAIN was.s.fs \ DOMAIN s.fs) <= 1 /\ \A p \in DOMAIN s.fs : s.fs[p] = was.s.fs[p]
Gone == Is2("rmtree") => LET w == LStat(was.s, Op[2]) IN
  IF was.ok THEN LStat(s, Op[2]).r = "noent" /\ s.fs = [p \in {p \in DOMAIN was.s.fs : ~Under(w.p, p)} |-> was.s.fs[p]]
  ELSE RmLeft(was.s, Op[2], s.fs)
\* what the source was read as, the destination is now read as; nothing else has changed but for directories on the way
Copied == Is2("copy") => LET dst == Into(was.s, Op[2], Op[3]) IN
  /\ was.ok => Stat(s, dst).r = "ok" /\ Node(s, Stat(s, dst)).d = Node(was.s, Stat(was.s, Op[2])).d
  /\ LET S == {p \in DOMAIN s.fs \ DOMAIN was.s.fs : s.fs[p].t = "d"} \cup {LStat(was.s, dst).p, LStat(s, dst).p} \cup (IF LStat(was.s, dst).r = "ok" /\ LStat(was.s, dst).p \in DOMAIN s.fs /\ s.fs[LStat(was.s, dst).p].t = "l" THEN {Stat(s, dst).p} ELSE {})
     IN But(was.s.fs, s.fs, S)
\* a source is never lost
Kept == (Is2("copy") \/ Is2("copytree")) => LET w == Stat(was.s, Op[2]) IN w.r = "ok" => Stat(s, Op[2]).r = "ok" /\ Node(s, Stat(s, Op[2])).d = Node(was.s, w).d
CopiedTree == Is2("copytree") /\ was.ok => \A p \in Below(was.s.fs, Stat(was.s, Op[2]).p) :
  LET q == From(p, Len(Stat(was.s, Op[2]).p) + 1)
      a == Op[2] \o q
      b == Op[3] \o q
  IN Stat(was.s, a).r = "ok" => Stat(s, b).r = "ok" /\ Node(s, Stat(s, b)).t = Node(was.s, Stat(was.s, a)).t /\ Node(s, Stat(s, b)).d = Node(was.s, Stat(was.s, a)).d
Ask2 == <<<<"exists", "/a/k">>, <<"differ", "/a/f", "/g">>, <<"list", "/a">>, <<"glob", "/*/*", "0", "1", "1", "0", "">>, <<"glob", "/*", "1", "1", "1", "1", "/a">>>>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson(Begin \o h' \o Ask2)>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
