------------------------------- MODULE Front -------------------------------
(* C30: what the front-ends of the algorithms hand to their implementations,  *)
(* and what becomes of the results.  Points, cameras and landmarks are known   *)
(* by numbers of their own.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, StrUtil
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
\* sequences as bags
Bag(q) == [x \in {q[i] : i \in 1..Len(q)} |-> Cardinality({i \in 1..Len(q) : q[i] = x})]

(* ---- matched features *)
Left(f, m) == [i \in 1..Len(m) |-> f[m[i][1] + 1]]
Right(f, m) == [i \in 1..Len(m) |-> f[m[i][2] + 1]]
\* the flags the implementation sets come back: every second one
Flags(n) == [i \in 1..n |-> <<i % 2>>]
Estimate(e) ==
  LET pts == e.k = "ess1p"
      a == IF pts THEN e.f1 ELSE Left(e.f1, e.m)
      b == IF pts THEN e.f2 ELSE Right(e.f2, e.m)
      c == CASE e.k \in {"hom", "fund"} -> <<0, 0>> [] e.k = "ess2" -> <<1, 2>> [] OTHER -> <<2, 2>>
  IN [calls |-> <<[a |-> a, b |-> b, scale |-> e.scale, c1 |-> c[1], c2 |-> c[2]]>>, same |-> TRUE, out |-> Flags(Len(a))]

(* ---- pairs that share an id; those of lists are paired by place *)
Place(t) == <<t, 2 * t, -t>>
Shared(x, y) == LET ids == {x[i][1] : i \in 1..Len(x)} \cap {y[i][1] : i \in 1..Len(y)}
                    of(q, k) == q[CHOOSE i \in 1..Len(q) : q[i][1] = k][2]
                IN {<<Place(of(x, k)), Place(of(y, k))>> : k \in ids}
Zip(a, b) == [i \in 1..Len(a) |-> <<a[i], b[i]>>]
Similar(e) ==
  /\ e.same /\ Len(e.calls) = 1
  /\ IF e.k \in {"cams", "lms"} THEN e.calls[1].a = [i \in 1..Len(e.x) |-> Place(e.x[i][2])] /\ e.calls[1].b = [i \in 1..Len(e.y) |-> Place(e.y[i][2])]
     ELSE LET c == e.calls[1]
              ps == Shared(e.x, e.y)
          IN Len(c.a) = Len(c.b) /\ Len(c.a) = Cardinality(ps) /\ {Zip(c.a, c.b)[i] : i \in 1..Len(c.a)} = ps

(* ---- features kept, with their descriptors *)
Filter(e) == e.given /\ e.own /\ e.n = 1 /\ e.rf = [i \in 1..Len(e.keep) |-> e.f[e.keep[i] + 1][1]] /\ e.rd = IF e.both THEN [i \in 1..Len(e.keep) |-> 100 + e.keep[i]] ELSE <<>>

(* ---- one camera after the other *)
Ids(q) == {q[i][1] : i \in 1..Len(q)}
Of(q, k) == q[CHOOSE i \in 1..Len(q) : q[i][1] = k][2]
\* the features on this frame of tracks that have a landmark, with it
Seen(e, f) == {<<t, j>> \in (1..Len(e.t)) \X (1..10) : j <= Len(e.t[t].st) /\ e.t[t].id \in Ids(e.l) /\ e.t[t].st[j][1] = f /\ e.t[t].st[j][2] # 0}
Pairs(e, f) == {<<e.t[p[1]].st[p[2]][2], Of(e.l, e.t[p[1]].id)>> : p \in Seen(e, f)}
Made(mode, t) == IF mode = "new" \/ (mode = "odd" /\ t % 2 = 1) THEN t + 1000 ELSE t
MapOf(q) == [k \in Ids(q) |-> Of(q, k)]
CallOk(e, c) == \E f \in Ids(e.c) : Of(e.c, f) = c.cam /\ Len(c.f) = Len(c.l) /\ Len(c.f) = Cardinality(Pairs(e, f)) /\ {Zip(c.f, c.l)[i] : i \in 1..Len(c.f)} = Pairs(e, f)
Optimize(e) ==
  /\ MapOf(e.was) = MapOf(e.c)              \* the map given is left alone
  /\ IF e.nc \/ e.nt \/ e.nl THEN e.exc = "invalid_value" /\ e.calls = <<>> /\ MapOf(e.res) = MapOf(e.c)
     ELSE IF e.mode = "throw" /\ \E f \in Ids(e.c) : Pairs(e, f) = {}
     \* what an implementation throws comes through, and nothing is replaced
     THEN e.exc = "invalid_value" /\ (\A i \in 1..Len(e.calls) : CallOk(e, e.calls[i])) /\ MapOf(e.res) = MapOf(e.c)
     ELSE /\ e.exc = "" /\ Len(e.calls) = Len(e.c) /\ Cardinality({e.calls[i].cam : i \in 1..Len(e.calls)}) = Len(e.c)
          /\ \A i \in 1..Len(e.calls) : CallOk(e, e.calls[i])
          /\ MapOf(e.res) = [f \in Ids(e.c) |-> Made(e.mode, Of(e.c, f))]

(* ---- zones of six degrees, the first of which begins at 180 degrees west; longitudes in quarters of a degree *)
Zone(q) == ((q + 720) % 1440) \div 24 + 1

(* ---- images and files *)
FT == INSTANCE FileTree
Tree == [fs |-> ("" :> FT!Dir(493)) @@ ("d" :> FT!Dir(493)) @@ ("d/e" :> FT!Dir(493)) @@ ("f" :> FT!File("x", 1, 420)) @@ ("d/g" :> FT!File("x", 1, 420))
                @@ ("l" :> FT!Link("d")) @@ ("d/k" :> FT!Link("../f")) @@ ("n" :> FT!Link("none")), cwd |-> "", sys |-> <<>>]
Abs(p) == IF StartsWith(p, "/") THEN p ELSE "/" \o p
RECURSIVE Words(_)
Words(p) == IF p = "" THEN <<>> ELSE LET k == FindIn(p, {"/"}, 1) IN IF k = 0 THEN <<p>> ELSE (IF k = 1 THEN <<>> ELSE <<UpTo(p, k - 1)>>) \o Words(From(p, k + 1))
RECURSIVE Fold(_, _)
Fold(ws, acc) == IF ws = <<>> THEN acc
                 ELSE Fold(Tail(ws), CASE ws[1] = "." -> acc [] ws[1] = ".." -> IF acc = <<>> THEN acc ELSE SubSeq(acc, 1, Len(acc) - 1) [] OTHER -> Append(acc, ws[1]))
\* the directory a path is in, by its text
Parent(p) == LET w == Fold(Words(p), <<>>) IN "/" \o JoinWith(SubSeq(w, 1, Len(w) - 1), "/")
Io(e) ==
  LET p == Abs(e.p)
      q == IF e.load THEN p ELSE Parent(p)
      exc == IF e.load THEN IF FT!Stat(Tree, p).r # "ok" THEN "path_not_exists" ELSE IF FT!IsDir(Tree, p) THEN "path_not_a_file" ELSE ""
             ELSE IF FT!Stat(Tree, q).r # "ok" THEN "path_not_exists" ELSE IF ~FT!IsDir(Tree, q) THEN "path_not_a_directory" ELSE ""
  IN [exc |-> exc, n |-> IF exc = "" THEN 1 ELSE 0, same |-> TRUE]

MInit == 0
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, 0, "")
    [] e.op = "est" -> LET x == Estimate(e) IN Res(x = [calls |-> e.calls, same |-> e.same, out |-> e.out], s, x)
    [] e.op = "sim" -> Res(Similar(e), s, Shared(e.x, e.y))
    [] e.op = "filter" -> Res(Filter(e), s, "the kept features and their descriptors")
    [] e.op = "optcam" -> Res(Optimize(e), s, {<<f, Pairs(e, f)>> : f \in Ids(e.c)})
    [] e.op = "zone" -> Res(e.r = Zone(e.lon), s, Zone(e.lon))
    [] e.op = "io" -> LET x == Io(e) IN Res(x = [exc |-> e.exc, n |-> e.n, same |-> e.same] /\ (e.n = 1 => e.given), s, x)
    [] OTHER -> Res(FALSE, s, "unknown")
=============================================================================
