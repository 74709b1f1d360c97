------------------------------ MODULE MCSparse ------------------------------
(* C27: the iterator, as an outer index and a position in the outer vector,  *)
(* which skips empty vectors, visits the list of cells: for every pattern of *)
(* cells of an outer x inner matrix.                                         *)
EXTENDS Sparse, Json, CSV, IOUtils
CONSTANTS Outer, Inner, SkipEmpty
VARIABLES pat, outer, at, seen, done
Vec(o) == [i \in 1..Cardinality({c \in 1..Inner : <<o, c>> \in pat}) |-> CHOOSE c \in 1..Inner : <<o, c>> \in pat /\ Cardinality({d \in 1..c - 1 : <<o, d>> \in pat}) = i - 1]
X == [byrow |-> TRUE, cells |-> [p \in pat |-> 0]]
\* normalised: the next position at or after (o,i)
RECURSIVE Settle(_, _)
Settle(o, i) == IF o > Outer THEN <<o, 1, TRUE>> ELSE IF i <= Len(Vec(o)) \/ ~SkipEmpty THEN <<o, i, FALSE>> ELSE Settle(o + 1, 1)
Init == pat \in SUBSET ((1..Outer) \X (1..Inner)) /\ outer = 0 /\ at = 0 /\ seen = <<>> /\ done = FALSE
Move(t) == outer' = t[1] /\ at' = t[2] /\ done' = t[3] /\ seen' = (IF t[3] THEN seen ELSE Append(seen, <<t[1], IF t[2] <= Len(Vec(t[1])) THEN Vec(t[1])[t[2]] ELSE 0>>)) /\ UNCHANGED pat
Next == ~done /\ Move(Settle(IF outer = 0 THEN 1 ELSE IF at < Len(Vec(outer)) THEN outer ELSE outer + 1, IF outer = 0 \/ at >= Len(Vec(outer)) THEN 1 ELSE at + 1))
Spec == Init /\ [][Next]_<<pat, outer, at, seen, done>> /\ WF_<<pat, outer, at, seen, done>>(Next)
EachOnce == done => seen = Order(X)
Prefix == \A i \in 1..Len(seen) : i <= Cardinality(pat) /\ seen[i] = Order(X)[i]
Ends == <>done
Num(b) == IF b THEN "1" ELSE "0"
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE <<ToString(q[1][1] - 1), ToString(q[1][2] - 1), ToString(10 * q[1][1] + q[1][2])>> \o Flat(Tail(q))
Rev(q) == [i \in 1..Len(q) |-> <<q[i][2], q[i][1]>>]
Script == << <<"mat", "x", "1", "i", Num(Cardinality(pat) % 2 = 0), ToString(Outer), ToString(Inner)>> \o Flat(seen'),
             <<"mat", "y", "0", "l", Num(Cardinality(pat) % 2 = 1), ToString(Inner), ToString(Outer)>> \o Flat(Rev(seen')),
             <<"enum", "x">>, <<"enum", "y">>, <<"cmp", "x", "x">>, <<"compress", "x">>, <<"compress", "y">>, <<"enum", "x">>, <<"enum", "y">> >>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ done' THEN CSVWrite("%1$s", <<ToJson(Script)>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
