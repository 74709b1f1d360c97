-------------------------------- MODULE Covs --------------------------------
(* Covariances: symmetric matrices.  All numbers are integers of halves, so  *)
(* that the average of two whole numbers is exact.                           *)
EXTENDS StrUtil

CInit == <<>>
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
\* the elements of an n*n matrix given row by row
El(q, n, i, j) == q[n * (i - 1) + j]
Sym(q, n) == [p \in (1..n) \X (1..n) |-> (El(q, n, p[1], p[2]) + El(q, n, p[2], p[1])) \div 2]
Rows(x) == [k \in 1..(x.n * x.n) |-> x.m[<<((k - 1) \div x.n) + 1, ((k - 1) % x.n) + 1>>]]
\* the object as observed: by elements, and as a matrix
Is(e, x) == e.el = Rows(x) /\ e.full = Rows(x) /\ e.t = x.t
To(s, e, x) == Res(Is(e, x), (e.h :> x) @@ s, Rows(x))
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, CInit, "")
    [] e.op = "mat" -> To(s, e, [n |-> e.n, t |-> e.t, m |-> Sym(e.a, e.n)])
    [] e.op = "scalar" -> To(s, e, [n |-> e.n, t |-> e.t, m |-> [p \in (1..e.n) \X (1..e.n) |-> IF p[1] = p[2] THEN e.v ELSE 0]])
    [] e.op \in {"copy", "assign"} -> To(s, e, s[e.g])
    \* from a covariance of the other number type
    [] e.op = "conv" -> To(s, e, [s[e.g] EXCEPT !.t = e.t])
    [] e.op = "rebuild" -> To(s, e, s[e.g])
    [] e.op = "set" -> To(s, e, [s[e.h] EXCEPT !.m = [p \in DOMAIN s[e.h].m |-> IF p \in {<<e.i, e.j>>, <<e.j, e.i>>} THEN e.v ELSE @[p]]])
    [] e.op = "show" -> To(s, e, s[e.h])
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
