------------------------------ MODULE Plugins ------------------------------
(* Loading plugins: a tree of directories holding files of several kinds, the *)
(* search path, the registry of algorithms (name -> file it came from), the   *)
(* modules counted as registered (module name -> path), and whether the       *)
(* implicit loading has happened.  A load calls the entry point of every file *)
(* that is a loadable module, directory by directory in search-path order, in *)
(* any order within a directory.                                              *)
EXTENDS StrUtil
\* tree: directory -> file name -> [k, ret, al]; env, added: search path entries; made: the manager exists
PInit == [tree |-> <<>>, env |-> <<>>, added |-> <<>>, made |-> FALSE, algs |-> <<>>, mods |-> <<>>, once |-> FALSE, held |-> <<>>]
Has(t, k) == k \in DOMAIN t
SUF == ".so"
\* a file counts as a module file if its last extension is the suffix; its name is the rest
IsMod(f) == Len(f) >= 3 /\ From(f, Len(f) - 2) = SUF
ModName(f) == UpTo(f, Len(f) - 3)
\* what the entry point is called for, in directory d under filter n
Loads(s, d, n) == IF ~Has(s.tree, d) THEN {} ELSE {f \in DOMAIN s.tree[d] : s.tree[d][f].k = "module" /\ IsMod(f) /\ (n = "" \/ ModName(f) = n)}
File(d, f) == d \o "/" \o f
PathOf(s) == s.env \o s.added
Dirs(s) == SelectSeq(PathOf(s), LAMBDA d : d # "")
\* the effect of calling one entry point.  algs: name -> the files its registered instance may be from ("" none);
\* whether what a failing module registered before it failed stays is left open
Called(s, d, f) == LET m == s.tree[d][f]
                       A == {m.al[i] : i \in 1..Len(m.al)} IN
  [s EXCEPT !.algs = [a \in A |-> {File(d, f)} \cup (IF m.ret = 0 THEN {} ELSE IF Has(s.algs, a) THEN s.algs[a] ELSE {""})] @@ @,
            !.mods = IF m.ret > 0 THEN @ ELSE (ModName(f) :> File(d, f)) @@ @]
\* all orders in which a set can be gone through
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Orders(S \ {x})} : x \in S}
RECURSIVE AllCalled(_, _, _)
AllCalled(s, d, q) == IF q = <<>> THEN s ELSE AllCalled(Called(s, d, Head(q)), d, Tail(q))
RECURSIVE LoadFrom(_, _, _)
\* all results of a load (used by the model; small directories)
LoadFrom(s, ds, n) == IF ds = <<>> THEN {s} ELSE UNION {LoadFrom(AllCalled(s, Head(ds), q), Tail(ds), n) : q \in Orders(Loads(s, Head(ds), n))}
\* a recorded sequence of calls must go through the directories in order, each exactly
RECURSIVE Follow(_, _, _, _)
Follow(s, ds, calls, n) ==
  IF ds = <<>> THEN [ok |-> calls = <<>>, st |-> s]
  ELSE LET L == Loads(s, Head(ds), n)
           k == Cardinality(L)
           part == SubSeq(calls, 1, k)
           names == {File(Head(ds), f) : f \in L}
       IN IF Len(calls) < k \/ {part[i] : i \in 1..k} # names THEN [ok |-> FALSE, st |-> s]
          ELSE Follow(AllCalled(s, Head(ds), [i \in 1..k |-> CHOOSE f \in L : File(Head(ds), f) = part[i]]), Tail(ds), SubSeq(calls, k + 1, Len(calls)), n)
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
IsSet(q, S) == Len(q) = Cardinality(S) /\ {q[i] : i \in 1..Len(q)} = S
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
\* what can be seen: registered modules, and algorithms with the file each instance comes from
Shows(s, e) == /\ IsSet(e.mods, DOMAIN s.mods)
               /\ Cardinality({e.algs[i][1] : i \in 1..Len(e.algs)}) = Len(e.algs)
               /\ \A i \in 1..Len(e.algs) : Has(s.algs, e.algs[i][1]) /\ e.algs[i][2] \in s.algs[e.algs[i][1]] \ {""}
               /\ \A a \in DOMAIN s.algs : "" \in s.algs[a] \/ \E i \in 1..Len(e.algs) : e.algs[i][1] = a
Seen(s, e) == [s EXCEPT !.algs = [a \in {e.algs[i][1] : i \in 1..Len(e.algs)} |-> {e.algs[CHOOSE i \in 1..Len(e.algs) : e.algs[i][1] = a][2]}]]
Put(s, e) == [k |-> e.k, ret |-> e.ret, al |-> e.al]
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, PInit, "")
    [] e.op = "dir" -> Res(TRUE, [s EXCEPT !.tree = @ @@ (e.d :> <<>>)], "")
    [] e.op = "put" -> Res(TRUE, [s EXCEPT !.tree[e.d] = (e.f :> Put(s, e)) @@ @], "")
    [] e.op = "rm" -> Res(TRUE, [s EXCEPT !.tree[e.d] = [f \in DOMAIN @ \ {e.f} |-> @[f]]], "")
    [] e.op = "env" -> Res(TRUE, IF s.made THEN s ELSE [s EXCEPT !.env = e.v], "")
    [] e.op = "add" -> Res(TRUE, [s EXCEPT !.added = Append(@, e.d), !.made = TRUE], "")
    \* the search path: environment, then the built-in directories, then what was added
    [] e.op = "paths" -> LET full == SelectSeq(s.env, LAMBDA d : d # "") \o e.d \o SelectSeq(s.added, LAMBDA d : d # "")
                         IN Res(SelectSeq(e.v, LAMBDA d : d # "") = full, [s EXCEPT !.made = TRUE], full)
    [] e.op = "load" -> LET r == Follow(s, Dirs(s), e.calls, e.n) IN Res(r.ok /\ Shows(r.st, e), [Seen(r.st, e) EXCEPT !.made = TRUE], r.st)
    \* exactly one requester loads, if nobody did before; nobody returns before it is complete
    [] e.op = "once" -> LET r == IF s.once THEN [ok |-> e.calls = <<>>, st |-> s] ELSE Follow(s, Dirs(s), e.calls, "")
                        IN Res(/\ r.ok /\ Shows(r.st, e)
                               /\ Count(e.r, 1) = (IF s.once THEN 0 ELSE 1)
                               /\ \A i \in 1..Len(e.r) : e.r[i] \in {0, 1} /\ e.seen[i] = Len(e.algs),
                               [Seen(r.st, e) EXCEPT !.made = TRUE, !.once = TRUE], r.st)
    [] e.op = "state" -> Res(e.calls = <<>> /\ Shows(s, e), [s EXCEPT !.made = TRUE], s)
    [] e.op = "make" -> LET y == Has(s.algs, e.n) IN Res(e.got = y /\ (y => e.from \in s.algs[e.n]), [s EXCEPT !.held = (e.h :> IF y THEN <<e.n, e.from>> ELSE <<>>) @@ @], y)
    \* an algorithm made earlier keeps working
    [] e.op = "held" -> LET v == s.held[e.h] IN Res(e.got = (v # <<>>) /\ (e.got => <<e.n, e.from>> = v), s, v)
    [] OTHER -> Res(FALSE, s, "unknown event")
=============================================================================
