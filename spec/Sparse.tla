------------------------------- MODULE Sparse -------------------------------
(* Sparse matrices and the enumeration of their stored cells.                *)
(* A matrix: its size, whether it is stored by rows, and its stored cells as *)
(* a function from <<row, column>> to the value (which may be zero).         *)
EXTENDS StrUtil

SInit == <<>>
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
Before(x, p, q) == IF x.byrow THEN p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]) ELSE p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1])
\* the cells in storage order
Order(x) == LET C == DOMAIN x.cells
            IN [i \in 1..Cardinality(C) |-> CHOOSE p \in C : Cardinality({q \in C : Before(x, q, p)}) = i - 1]
Listed(x) == LET o == Order(x) IN [i \in 1..Len(o) |-> <<o[i][1], o[i][2], x.cells[o[i]]>>]
Cells(rows) == [p \in {<<rows[i][1], rows[i][2]>> : i \in 1..Len(rows)} |-> (CHOOSE r \in SeqToSet(rows) : r[1] = p[1] /\ r[2] = p[2])[3]]
\* the positions of a matrix: its cells, then the end (one position for all matrices)
Pos(m, x, i) == IF i > Cardinality(DOMAIN x.cells) THEN <<"end">> ELSE <<m, i>>
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, SInit, "")
    [] e.op = "mat" -> Res(TRUE, (e.h :> [byrow |-> e.byrow, rows |-> e.rows, cols |-> e.cols, cells |-> Cells(e.a)]) @@ s, "")
    [] e.op = "put" -> Res(TRUE, [s EXCEPT ![e.h].cells = (<<e.r, e.c>> :> e.v) @@ @], "")
    [] e.op = "compress" -> Res(TRUE, s, "")
    \* by a loop from begin to end
    [] e.op = "enum" -> Res(e.seen = Listed(s[e.h]) /\ e.again = e.seen, s, Listed(s[e.h]))
    \* comparisons of all positions of two enumerations: e.eq lists the pairs (from 1) that are equal, e.n and e.m how many positions there are
    [] e.op = "cmp" -> LET x == s[e.h]
                           y == s[e.g]
                           n == Cardinality(DOMAIN x.cells) + 1
                           m == Cardinality(DOMAIN y.cells) + 1
                           E == {p \in (1..n) \X (1..m) : Pos(e.h, x, p[1]) = Pos(e.g, y, p[2])}
                       IN Res(e.n = n /\ e.m = m /\ SeqToSet(e.eq) = E /\ e.consistent, s, E)
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
