------------------------------- MODULE MCHash -------------------------------
(* C34: the table as lists in buckets - insertion at the front or after an   *)
(* equal element, growth that moves elements one by one to the front of      *)
(* their new list, erasure of a range of the iteration bucket by bucket -    *)
(* keeps exactly the elements of the abstract bag, each in the bucket of its *)
(* key and equal ones next to each other, for every history up to MaxOps.    *)
EXTENDS Hash, Json, CSV, IOUtils
CONSTANTS Kind, Mode, Keys, MaxOps, Sizes, AfterEqual, Grows
VARIABLES b, x, ops
Primes == <<2, 3, 5, 11>>
HashOf(k) == CASE Mode = "one" -> 7 [] Mode = "mod3" -> k % 3 [] Mode = "eq4" -> k % 4 [] OTHER -> k
Fit(n) == IF \E i \in DOMAIN Sizes : Sizes[i] >= n THEN Sizes[CHOOSE i \in DOMAIN Sizes : Sizes[i] >= n /\ \A j \in 1..i - 1 : Sizes[j] < n] ELSE Sizes[Len(Sizes)]
At(t, k) == (HashOf(k) % Len(t)) + 1
RECURSIVE Move(_, _, _)
Move(t, i, u) == IF i > Len(t) THEN u ELSE IF t[i] = <<>> THEN Move(t, i + 1, u)
                 ELSE Move([t EXCEPT ![i] = Tail(@)], i, [u EXCEPT ![At(u, Head(t[i])[1])] = <<Head(t[i])>> \o @])
Resized(t, n) == IF n > Len(t) /\ Fit(n) > Len(t) THEN Move(t, 1, [i \in 1..Fit(n) |-> <<>>]) ELSE t
First(q, k) == IF \E i \in DOMAIN q : Same(Mode, q[i][1], k) THEN CHOOSE i \in DOMAIN q : Same(Mode, q[i][1], k) /\ \A j \in 1..i - 1 : ~Same(Mode, q[j][1], k) ELSE 0
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Elems(t) == Flat(t)
Inserted(t0, p) ==
  LET t == IF Grows THEN Resized(t0, Len(Elems(t0)) + 1) ELSE t0
      i == At(t, p[1])
      f == First(t[i], p[1])
  IN IF f = 0 THEN [t EXCEPT ![i] = <<p>> \o @]
     ELSE IF Unique(Kind) THEN t
     ELSE IF AfterEqual THEN [t EXCEPT ![i] = SubSeq(@, 1, f) \o <<p>> \o SubSeq(@, f + 1, Len(@))]
     ELSE [t EXCEPT ![i] = <<p>> \o @]
Erased(t, k) == LET i == At(t, k) IN [t EXCEPT ![i] = SelectSeq(@, LAMBDA p : ~Same(Mode, p[1], k))]
Before(t, i) == Len(Elems(SubSeq(t, 1, i - 1)))
Cut(t, a, c) == [i \in DOMAIN t |-> LET n == Before(t, i) IN SubSeq(t[i], 1, IF a - n < 0 THEN 0 ELSE IF a - n > Len(t[i]) THEN Len(t[i]) ELSE a - n)
                                    \o SubSeq(t[i], (IF c - n < 0 THEN 0 ELSE c - n) + 1, Len(t[i]))]
\* equal_range: from the first equal element to the first other one after it
EqRange(t, k) == LET q == t[At(t, k)]
                     f == First(q, k)
                     g == IF \E i \in f + 1..Len(q) : ~Same(Mode, q[i][1], k) THEN CHOOSE i \in f + 1..Len(q) : ~Same(Mode, q[i][1], k) /\ \A j \in f + 1..i - 1 : Same(Mode, q[j][1], k) ELSE Len(q) + 1
                 IN IF f = 0 THEN <<>> ELSE SubSeq(q, f, g - 1)
S(n) == ToString(n)
Init == b = [i \in 1..Sizes[1] |-> <<>>] /\ x = Cont(Kind, Mode) /\ ops = <<>>
V == IF Mapped(Kind) THEN Len(ops) + 1 ELSE 0
Next ==
  /\ Len(ops) < MaxOps
  /\ \/ \E k \in Keys : b' = Inserted(b, <<k, V>>) /\ x' = Insert(x, <<k, V>>) /\ ops' = Append(ops, <<"ins", "x", S(k), S(V), "">>)
     \/ \E k \in Keys : Has(x, k) /\ b' = Erased(b, k) /\ x' = [x EXCEPT !.bag = Without(x, k)] /\ ops' = Append(ops, <<"erk", "x", S(k)>>)
     \/ \E i \in 0..Len(Elems(b)) - 1, j \in 1..Len(Elems(b)) : i < j /\ b' = Cut(b, i, j) /\ x' = [x EXCEPT !.bag = LessAll(@, SubSeq(Elems(b), i + 1, j))] /\ ops' = Append(ops, <<"err", "x", S(i), S(j - i), "">>)
     \/ \E n \in {Sizes[i] : i \in DOMAIN Sizes} : n > Len(b) /\ b' = Resized(b, n) /\ x' = x /\ ops' = Append(ops, <<"resize", "x", S(n)>>)
Spec == Init /\ [][Next]_<<b, x, ops>>
View == <<b, x, Len(ops)>>
Holds == Bag(Elems(b)) = x.bag
InPlace == \A i \in DOMAIN b : \A j \in DOMAIN b[i] : At(b, b[i][j][1]) = i
Ranges == \A k \in Keys : Bag(EqRange(b, k)) = With(x, k)
OneEach == Unique(Kind) => \A p, q \in DOMAIN x.bag : (Same(Mode, p[1], q[1]) => p = q) /\ x.bag[p] = 1
Asks == Flat([k \in 1..Cardinality(Keys) |-> <<<<"eqr", "x", S(k - 1)>>, <<"find", "x", S(k - 1)>>, <<"count", "x", S(k - 1)>>>>])
ScriptOf(o) == <<<<"new", "x", Kind, Mode, "empty", "in", "1">>>> \o o \o Asks \o <<<<"copy", "y", "x">>, <<"erkof", "y", "0">>, <<"ins", "x", "1", IF Mapped(Kind) THEN "999" ELSE "0", "">>>>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(ops') = MaxOps THEN CSVWrite("%1$s", <<ToJson(ScriptOf(ops'))>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
