-------------------------------- MODULE Hash --------------------------------
(* The bundled hash containers as abstract sets, multisets, maps, multimaps. *)
(* A container: its kind, how it hashes and compares keys (mode), and the    *)
(* bag of its elements: a function from <<key, value>> to how often it is    *)
(* there (the value is 0 in sets).                                           *)
(* Held iterators name one element each and stay usable until it is erased.  *)
EXTENDS StrUtil

SInit == [c |-> <<>>, held |-> <<>>, armed |-> FALSE]
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
Unique(k) == k \in {"set", "map"}
Mapped(k) == k \in {"map", "mmap"}
\* which keys are the same: with mode "eq4", those that agree modulo 4
Same(m, a, b) == IF m = "eq4" THEN a % 4 = b % 4 ELSE a = b
None == [p \in {} |-> 0]
Bag(q) == [p \in SeqToSet(q) |-> Cardinality({i \in DOMAIN q : q[i] = p})]
RECURSIVE Total(_)
Total(b) == IF DOMAIN b = {} THEN 0 ELSE LET p == CHOOSE p \in DOMAIN b : TRUE IN b[p] + Total([q \in DOMAIN b \ {p} |-> b[q]])
Plus(b, p) == IF p \in DOMAIN b THEN [b EXCEPT ![p] = @ + 1] ELSE (p :> 1) @@ b
Less(b, p) == IF b[p] > 1 THEN [b EXCEPT ![p] = @ - 1] ELSE [q \in DOMAIN b \ {p} |-> b[q]]
RECURSIVE LessAll(_, _)
LessAll(b, q) == IF q = <<>> THEN b ELSE LessAll(Less(b, Head(q)), Tail(q))
With(x, k) == [p \in {p \in DOMAIN x.bag : Same(x.m, p[1], k)} |-> x.bag[p]]
Without(x, k) == [p \in {p \in DOMAIN x.bag : ~Same(x.m, p[1], k)} |-> x.bag[p]]
Has(x, k) == DOMAIN With(x, k) # {}
The(x, k) == CHOOSE p \in DOMAIN With(x, k) : TRUE
Insert(x, p) == IF Unique(x.kind) /\ Has(x, p[1]) THEN x ELSE [x EXCEPT !.bag = Plus(@, p)]
RECURSIVE InsertAll(_, _)
InsertAll(x, q) == IF q = <<>> THEN x ELSE InsertAll(Insert(x, Head(q)), Tail(q))
Cont(kind, m) == [kind |-> kind, m |-> m, bag |-> None]
\* iterators held into h whose element is no longer there (of equal elements, none is held)
Drop(s, h) == [x \in {x \in DOMAIN s.held : s.held[x].h # h \/ (h \in DOMAIN s.c /\ s.held[x].p \in DOMAIN s.c[h].bag)} |-> s.held[x]]
Put(s, h, x) == LET t == [s EXCEPT !.c = (h :> x) @@ @] IN [t EXCEPT !.held = Drop(t, h)]
\* the whole contents replaced: nothing held into h remains
Fresh(s, h, x) == [s EXCEPT !.c = (h :> x) @@ @, !.held = [y \in {y \in DOMAIN s.held : s.held[y].h # h} |-> s.held[y]]]
Gone(s, h) == [s EXCEPT !.c = [g \in DOMAIN s.c \ {h} |-> s.c[g]], !.held = [y \in {y \in DOMAIN s.held : s.held[y].h # h} |-> s.held[y]]]

\* what every event shows: [handle, size, empty, elements by iteration] of all containers, and how many keys and values are alive
RECURSIVE Alive(_, _)
Alive(s, H) == IF H = {} THEN 0 ELSE LET h == CHOOSE h \in H : TRUE IN Total(s.c[h].bag) * (IF Mapped(s.c[h].kind) THEN 2 ELSE 1) + Alive(s, H \ {h})
Shown(s, e) ==
  /\ SeqToSet([i \in DOMAIN e.st |-> e.st[i][1]]) = DOMAIN s.c /\ Len(e.st) = Cardinality(DOMAIN s.c)
  /\ \A i \in DOMAIN e.st : LET x == s.c[e.st[i][1]] IN e.st[i][2] = Total(x.bag) /\ e.st[i][3] = (DOMAIN x.bag = {}) /\ Bag(e.st[i][4]) = x.bag
  /\ e.live = Alive(s, DOMAIN s.c)

Do(s, e) ==
  CASE e.op = "new" -> IF e.threw THEN Res(s.armed, Gone(s, e.h), "") ELSE Res(TRUE, Fresh(s, e.h, InsertAll(Cont(e.kind, e.m), e.a)), "")
    [] e.op = "ins" ->
         LET x == s.c[e.h]
             p == <<e.k, e.v>>
         IN IF e.threw THEN Res(s.armed, s, "") \* as if it had not been tried
            ELSE IF Unique(x.kind) THEN Res(e.inserted = ~Has(x, e.k) /\ e.at = (IF Has(x, e.k) THEN The(x, e.k) ELSE p), Put(s, e.h, Insert(x, p)), p)
            ELSE Res(e.at = p, Put(s, e.h, Insert(x, p)), p)
    [] e.op = "insr" ->
         LET x == s.c[e.h]
             P == {i \in 0..Len(e.a) : Bag(e.now) = InsertAll(x, SubSeq(e.a, 1, i)).bag}
         IN IF e.threw THEN Res(s.armed /\ P # {}, IF P = {} THEN s ELSE Put(s, e.h, InsertAll(x, SubSeq(e.a, 1, CHOOSE i \in P : TRUE))), "")
            ELSE Res(TRUE, Put(s, e.h, InsertAll(x, e.a)), "")
    [] e.op = "idx" ->
         LET x == s.c[e.h]
             y == Insert(x, <<e.k, 0>>)
         IN IF e.threw THEN Res(s.armed, s, "") ELSE Res(e.v = The(y, e.k)[2], Put(s, e.h, y), The(y, e.k))
    \* through the element found or made by [], or through a held iterator
    [] e.op = "set" ->
         LET y == Insert(s.c[e.h], <<e.k, 0>>)
             p == The(y, e.k)
             q == <<p[1], e.v>>
         IN IF e.threw THEN Res(s.armed, s, "")
            ELSE Res(TRUE, [s EXCEPT !.c[e.h] = [y EXCEPT !.bag = Plus(Less(@, p), q)],
                                     !.held = [z \in DOMAIN @ |-> IF @[z].h = e.h /\ @[z].p = p THEN [h |-> e.h, p |-> q] ELSE @[z]]], "")
    [] e.op = "find" ->
         LET x == s.c[e.h]
             ok(f, at) == f = Has(x, e.k) /\ (f => at \in DOMAIN With(x, e.k))
         IN Res(ok(e.found, e.at) /\ ok(e.cfound, e.cat), s, With(x, e.k))
    [] e.op = "count" -> LET n == Total(With(s.c[e.h], e.k)) IN Res(e.n = n, s, n)
    [] e.op = "eqr" -> LET b == With(s.c[e.h], e.k) IN Res(Bag(e.a) = b /\ Bag(e.ca) = b, s, b)
    \* also with the key given as a reference to the key of an element (erkof)
    [] e.op \in {"erk", "erkof"} ->
         LET x == s.c[e.h] IN Res(e.n = Total(With(x, e.k)), Put(s, e.h, [x EXCEPT !.bag = Without(x, e.k)]), Total(With(x, e.k)))
    [] e.op = "eri" -> LET x == s.c[e.h] IN IF e.none THEN Res(DOMAIN x.bag = {}, s, "") ELSE Res(TRUE, Put(s, e.h, [x EXCEPT !.bag = Less(@, e.at)]), "")
    \* the elements from the i-th up to before the j-th of the iteration that was seen before
    [] e.op = "err" -> LET x == s.c[e.h] IN Res(Bag(e.before) = x.bag, Put(s, e.h, [x EXCEPT !.bag = LessAll(@, SubSeq(e.before, e.i + 1, e.j))]), "")
    [] e.op = "copy" -> IF e.threw THEN Res(s.armed, Gone(s, e.h), "") ELSE Res(e.eq, Fresh(s, e.h, s.c[e.g]), "")
    \* a failed assignment may have emptied its target
    [] e.op = "asg" ->
         IF e.threw THEN IF Len(e.now) = 0 THEN Res(s.armed, Fresh(s, e.h, [s.c[e.g] EXCEPT !.bag = None]), "")
                         ELSE Res(s.armed /\ e.h # e.g /\ Bag(e.now) = s.c[e.h].bag, s, "")
         ELSE IF e.h = e.g THEN Res(e.eq, s, "") ELSE Res(e.eq, Fresh(s, e.h, s.c[e.g]), "")
    [] e.op = "swap" ->
         Res(TRUE, [s EXCEPT !.c = [g \in DOMAIN @ |-> IF g = e.h THEN @[e.g] ELSE IF g = e.g THEN @[e.h] ELSE @[g]],
                             !.held = [z \in DOMAIN @ |-> IF @[z].h = e.h THEN [@[z] EXCEPT !.h = e.g] ELSE IF @[z].h = e.g THEN [@[z] EXCEPT !.h = e.h] ELSE @[z]]], "")
    [] e.op = "resize" -> Res(e.buckets >= e.n /\ e.inbuckets = Total(s.c[e.h].bag), s, "")
    [] e.op = "clear" -> Res(TRUE, Fresh(s, e.h, [s.c[e.h] EXCEPT !.bag = None]), "")
    [] e.op = "drop" -> Res(TRUE, Gone(s, e.h), "")
    \* equal containers have the same elements; the converse depends on the order of iteration
    [] e.op = "eqv" -> Res(e.ne = ~e.eq /\ (e.eq => s.c[e.h].bag = s.c[e.g].bag), s, "")
    [] e.op = "hold" -> IF e.none THEN Res(DOMAIN s.c[e.h].bag = {}, s, "")
                        ELSE Res(e.at \in DOMAIN s.c[e.h].bag, [s EXCEPT !.held = (e.x :> [h |-> e.h, p |-> e.at]) @@ @], "")
    [] e.op = "held" -> IF e.gone THEN Res(e.x \notin DOMAIN s.held, s, "")
                        ELSE Res(e.x \in DOMAIN s.held /\ e.at = s.held[e.x].p /\ e.h = s.held[e.x].h, s, "")
    [] e.op = "fault" -> Res(TRUE, s, "")
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
Step(s, e) ==
  IF e.op = "reset" THEN Res(TRUE, SInit, "")
  ELSE LET r == Do(s, e)
           t == [r.st EXCEPT !.armed = (e.op = "fault")]
       IN IF ~r.ok THEN r ELSE Res(Shown(t, e), t, <<"contents", t.c>>)
=============================================================================
