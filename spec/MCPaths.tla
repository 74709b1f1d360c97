------------------------------ MODULE MCPaths ------------------------------
(* C32: laws of the path operators, for every text up to MaxLen characters.  *)
EXTENDS Paths, Json, CSV, IOUtils
CONSTANTS Alphabet, MaxLen, Home, UpAtRoot
VARIABLES p
Bases == {"/", "/b", "/b/c", "//n/b", "/b/../c/."}
Init == p = ""
Next == Len(p) < MaxLen /\ \E i \in 1..Len(Alphabet) : p' = p \o Ch(Alphabet, i)
Spec == Init /\ [][Next]_p
\* the same location by rewriting: drop an empty or "." component, drop a name with the ".." after it, drop ".." at the root
RECURSIVE Rewrite(_)
Rewrite(c) ==
  IF \E i \in DOMAIN c : c[i] \in {"", "."}
  THEN LET i == CHOOSE i \in DOMAIN c : c[i] \in {"", "."} IN Rewrite(SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c)))
  ELSE IF \E i \in 2..Len(c) : c[i] = ".." /\ c[i - 1] # ".."
  THEN LET i == CHOOSE i \in 2..Len(c) : c[i] = ".." /\ c[i - 1] # ".." IN Rewrite(SubSeq(c, 1, i - 2) \o SubSeq(c, i + 1, Len(c)))
  ELSE IF UpAtRoot /\ c # <<>> /\ c[1] = ".." THEN Rewrite(Tail(c)) ELSE c
E == Expand(Home, Squeezed(p))
Root(b) == IF RootOf(E) # "" THEN RootOf(E) ELSE RootOf(b)
Under(b) == IF RootOf(E) # "" THEN Rest(E) ELSE Rest(b) \o "/" \o E
Same(b) == Loc(Home, p, b) = [root |-> Root(b), names |-> Rewrite(Pieces(Under(b)))]
Means == \A b \in Bases : Same(b)
Canonical == \A b \in Bases : LET r == CollapseOf(Home, p, b) IN
  /\ CollapseOf(Home, r, "/other") = r /\ StartsWith(r, "/") /\ NoSpare(r)
  /\ \A i \in DOMAIN Loc(Home, p, b).names : Loc(Home, p, b).names[i] \notin {"", ".", ".."}
Rejoins == StartsWith(p, "~") \/ JoinOf(SplitOf(Home, p, TRUE)) = p
Rejoins2 == (Home = "/" /\ StartsWith(p, "~//")) \/ \A b \in Bases : CollapseOf(Home, JoinOf(SplitOf(Home, p, TRUE)), b) = CollapseOf(Home, p, b)
Partition == /\ StemOf(p) \o ExtOf(p) = NameOf(p) /\ LastStemOf(p) \o LastExtOf(p) = NameOf(p) /\ EndsWith(ExtOf(p), LastExtOf(p))
             /\ EndsWith(p, NameOf(p)) /\ \A i \in 1..Len(NameOf(p)) : Ch(NameOf(p), i) # "/"
Show(x) == (IF x.abs THEN "/" ELSE "") \o JoinWith(x.names, "/")
\* directory and name together are the path
DirAndName == ~Tilde(p) /\ p # "" /\ ~EndsWith(p, "/") => LET q == DirOf(Home, p) IN [q EXCEPT !.names = Append(@, NameOf(p))] = Plain(p)
UnixOnce == Unix(Home, Unix(Home, p)) = Unix(Home, p)
WayBack == \A b \in Bases : LET x == Loc(Home, p, b)
                                y == Loc("", b, "/")
                                n == Common(y.names, x.names)
                                rel == JoinWith([i \in 1..Len(y.names) - n |-> ".."] \o SubSeq(x.names, n + 1, Len(x.names)), "/")
                            IN x.root = y.root /\ ~StartsWith(rel, "~") => Loc("", rel, b) = x
ScriptOf(t) == <<<<"home", Home>>>>
  \o (IF Cardinality({i \in 1..Len(t) : Ch(t, i) \in {"\\", ":"}}) = 0 THEN
       <<<<"collapse", t, "/b">>, <<"collapse", t, "//n/b", "s">>, <<"split", t, "1">>, <<"split", t, "0">>, <<"parts", t>>>> ELSE <<>>)
  \o (IF Cardinality({i \in 1..Len(t) : Ch(t, i) \in {"\\", ":"}}) = 0 /\ ~StartsWith(t, "//") THEN
       <<<<"below", t, "a">>, <<"below", "/a/a/a", t>>, <<"below", "a/./a", t>>>> ELSE <<>>)
  \o (IF Cardinality({i \in 1..Len(t) : Ch(t, i) \in {"\\", ":", "~"}}) = 0 /\ ~StartsWith(t, "//") THEN <<<<"rel", t, "/a/b">>, <<"rel", "/a/./b", t>>>> ELSE <<>>)
  \o <<<<"unix", t>>>>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson(ScriptOf(p'))>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
