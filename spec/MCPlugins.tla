----------------------------- MODULE MCPlugins -----------------------------
(* Every small tree of plugin files over two directories, every search path   *)
(* and every short history of loads, reloads and added directories.           *)
EXTENDS Plugins, Json, CSV, IOUtils
CONSTANTS MaxOps, MaxFiles
VARIABLES s, hist
vars == <<s, hist>>
Kinds == {[k |-> "module", ret |-> 0, al |-> <<"x", "y">>], [k |-> "module", ret |-> 1, al |-> <<"x">>], [k |-> "module", ret |-> 0, al |-> <<"z">>],
          [k |-> "noentry", ret |-> 0, al |-> <<>>], [k |-> "text", ret |-> 0, al |-> <<>>], [k |-> "dir", ret |-> 0, al |-> <<>>]}
Files == {"a.so", "a.b.so"}
Other == "a.dll"
Slots == {<<d, f>> : d \in {"d1", "d2"}, f \in Files} \cup {<<"d1", Other>>}
Trees == UNION {[P -> Kinds] : P \in {P \in SUBSET Slots : Cardinality(P) <= MaxFiles}}
Tree(t) == [d \in {"d1", "d2"} |-> [f \in {p[2] : p \in {p \in DOMAIN t : p[1] = d}} |-> t[<<d, f>>]]]
Envs == {<<"d1">>, <<"d2", "d1">>, <<"no", "d2">>}
Init == hist = <<>> /\ \E t \in Trees, v \in Envs : s = [PInit EXCEPT !.tree = Tree(t), !.env = v]
Filters == {"", "a", "a.b"}
Load(n) == s' \in LoadFrom(s, Dirs(s), n) /\ hist' = Append(hist, <<"load", n>>)
Once == /\ IF s.once THEN s' = s ELSE s' \in {[x EXCEPT !.once = TRUE] : x \in LoadFrom(s, Dirs(s), "")}
        /\ hist' = Append(hist, <<"once">>)
Add == "d2" \notin SeqToSet(PathOf(s)) /\ s' = [s EXCEPT !.added = Append(@, "d2")] /\ hist' = Append(hist, <<"add", "d2">>)
Next == Len(hist) < MaxOps /\ ((\E n \in Filters : Load(n)) \/ Once \/ Add)
Spec == Init /\ [][Next]_vars

\* the files that count: loadable modules with the suffix, in a directory of the path
Valid == {<<d, f>> \in {"d1", "d2"} \X (Files \cup {Other}) : Has(s.tree[d], f) /\ s.tree[d][f].k = "module" /\ IsMod(f)}
Good == {p \in Valid : s.tree[p[1]][p[2]].ret = 0}
OnPath == {p \in Valid : p[1] \in SeqToSet(PathOf(s))}
\* nothing but valid files contributes, and nobody counts as registered after failing
OnlyValid == /\ \A a \in DOMAIN s.algs : \A x \in s.algs[a] \ {""} : \E p \in Valid : x = File(p[1], p[2]) /\ a \in SeqToSet(s.tree[p[1]][p[2]].al)
             /\ \A m \in DOMAIN s.mods : \E p \in Good : ModName(p[2]) = m /\ s.mods[m] = File(p[1], p[2])
\* right after an unfiltered load everything valid on the path is available
Complete == [][hist'[Len(hist')] = <<"load", "">> =>
   /\ \A p \in OnPath \cap Good : ModName(p[2]) \in DOMAIN s'.mods
   /\ \A p \in OnPath \cap Good : \A a \in SeqToSet(s.tree[p[1]][p[2]].al) : a \in DOMAIN s'.algs /\ "" \notin s'.algs[a]]_vars
\* a filtered load changes nothing but what the named modules provide
FilterRestricts == [][hist'[Len(hist')][1] = "load" /\ hist'[Len(hist')][2] # "" =>
   LET n == hist'[Len(hist')][2] IN
   /\ \A m \in DOMAIN s'.mods : m # n => m \in DOMAIN s.mods /\ s'.mods[m] = s.mods[m]
   /\ \A a \in DOMAIN s'.algs : (Has(s.algs, a) /\ s'.algs[a] = s.algs[a]) \/ \E p \in OnPath : ModName(p[2]) = n /\ a \in SeqToSet(s.tree[p[1]][p[2]].al)]_vars
Monotone == [][DOMAIN s.algs \subseteq DOMAIN s'.algs /\ DOMAIN s.mods \subseteq DOMAIN s'.mods]_vars
OnceOnly == [][s.once /\ hist'[Len(hist')] = <<"once">> => s' = s]_vars

Flat(q) == LET RECURSIVE F(_) F(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o F(Tail(x)) IN F(q)
SlotSeq == << <<"d1", "a.so">>, <<"d1", "a.b.so">>, <<"d2", "a.so">>, <<"d2", "a.b.so">>, <<"d1", "a.dll">> >>
PutLine(d, f) == LET m == s.tree[d][f] IN <<"put", d, f, m.k, ToString(m.ret), "0">> \o m.al
Script == << <<"dir", "d1">>, <<"dir", "d2">> >>
          \o Flat([i \in 1..Len(SlotSeq) |-> IF Has(s.tree[SlotSeq[i][1]], SlotSeq[i][2]) THEN <<PutLine(SlotSeq[i][1], SlotSeq[i][2])>> ELSE <<>>])
          \o << <<"env">> \o s.env >>
          \o Flat([i \in 1..Len(hist') |-> LET o == hist'[i] IN
               << IF o[1] = "load" THEN (IF o[2] = "" THEN <<"load">> ELSE o) ELSE IF o[1] = "once" THEN <<"once", "2">> ELSE o >> \o << <<"make", ToString(i), "x">> >>])
          \o << <<"paths">>, <<"held", "1">>, <<"state">> >>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(hist') = MaxOps THEN CSVWrite("%1$s", <<ToJson(Script)>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
