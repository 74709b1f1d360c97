-------------------------------- MODULE Homs --------------------------------
(* Homographies between frames: a matrix with the frames it maps from and to.*)
(* Numbers are dyadic: a matrix is nine integers, not all of them even, and  *)
(* the power of two they are to be multiplied with.                          *)
EXTENDS StrUtil

HInit == <<>>
Zero9 == [i \in 1..9 |-> 0]
Even(n) == n % 2 = 0
RECURSIVE Canon(_, _)
Canon(m, e) == IF \A i \in DOMAIN m : m[i] = 0 THEN [m |-> m, e |-> 0]
               ELSE IF \A i \in DOMAIN m : Even(m[i]) THEN Canon([i \in DOMAIN m |-> m[i] \div 2], e + 1)
               ELSE [m |-> m, e |-> e]
Ident == [m |-> <<1, 0, 0, 0, 1, 0, 0, 0, 1>>, e |-> 0]
At(a, i, j) == a.m[3 * (i - 1) + j]
Mat(F(_, _), e) == Canon([k \in 1..9 |-> F(((k - 1) \div 3) + 1, ((k - 1) % 3) + 1)], e)
Mul(a, b) == LET F(i, j) == At(a, i, 1) * At(b, 1, j) + At(a, i, 2) * At(b, 2, j) + At(a, i, 3) * At(b, 3, j) IN Mat(F, a.e + b.e)
Nx(i) == (i % 3) + 1
\* the cofactor of the element (i,j), of the integers only
Cof(a, i, j) == At(a, Nx(i), Nx(j)) * At(a, Nx(Nx(i)), Nx(Nx(j))) - At(a, Nx(i), Nx(Nx(j))) * At(a, Nx(Nx(i)), Nx(j))
Det(a) == At(a, 1, 1) * Cof(a, 1, 1) + At(a, 1, 2) * Cof(a, 1, 2) + At(a, 1, 3) * Cof(a, 1, 3)
RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)
Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE 1
RECURSIVE IsPow2(_)
IsPow2(n) == n = 1 \/ (n > 1 /\ Even(n) /\ IsPow2(n \div 2))
\* exact only for determinants that are powers of two
Inv(a) == LET d == Det(a)
              F(i, j) == Sgn(d) * Cof(a, j, i)
          IN Mat(F, -a.e - Log2(Abs(d)))
Norm(a) == LET w == At(a, 3, 3) IN IF w = 0 THEN a ELSE Canon([k \in 1..9 |-> Sgn(w) * a.m[k]], -Log2(Abs(w)))
\* a point of integers, mapped: its two coordinates as one canonical pair, or infinity
Maps(a, x, y) == LET R(i) == At(a, i, 1) * x + At(a, i, 2) * y + At(a, i, 3)
                     w == R(3)
                 IN IF w = 0 THEN [inf |-> TRUE] ELSE [inf |-> FALSE, p |-> Canon(<<Sgn(w) * R(1), Sgn(w) * R(2)>>, -Log2(Abs(w)))]
-----------------------------------------------------------------------------
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
(* Objects: e.h is the object that an operation creates or replaces.  Objects *)
(* of the kinds "m" (a matrix), "f" (frame to frame) and "w" (frame to world).*)
Is(e, x) == e.k = x.k /\ e.m = x.m.m /\ e.e = x.m.e /\ (x.k # "m" => e.from = x.from) /\ (x.k = "f" => e.to = x.to)
Put(s, h, x) == (h :> x) @@ s
To(s, e, x) == IF e.err # "" THEN Res(FALSE, s, x) ELSE Res(Is(e, x), Put(s, e.h, x), x)
Fails(s, e, err) == Res(e.err = err, s, err)
F(m, from, to) == [k |-> "f", m |-> m, from |-> from, to |-> to]
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, HInit, "")
    [] e.op = "mat" -> To(s, e, [k |-> "m", m |-> Canon(e.a, e.x)])
    [] e.op = "ident" -> To(s, e, [k |-> "m", m |-> Ident])
    [] e.op = "fident" -> To(s, e, F(Ident, e.f, e.f))
    [] e.op = "wident" -> To(s, e, [k |-> "w", m |-> Ident, from |-> e.f])
    \* from an own matrix, or from a homography object, of which it is independent afterwards
    [] e.op = "f2f" -> To(s, e, F(Canon(e.a, e.x), e.f, e.t))
    [] e.op = "f2fof" -> To(s, e, F(s[e.g].m, e.f, e.t))
    [] e.op = "f2wof" -> To(s, e, [k |-> "w", m |-> s[e.g].m, from |-> e.f])
    [] e.op \in {"copy", "assign", "clone", "conv"} -> To(s, e, s[e.g])
    \* composition, this with the operand on its right
    [] e.op = "mul" -> IF s[e.a].k = "m" THEN To(s, e, [k |-> "m", m |-> Mul(s[e.a].m, s[e.b].m)])
                       ELSE IF s[e.a].from # s[e.b].to THEN Fails(s, e, "invalid_matrix_operation")
                       ELSE To(s, e, F(Mul(s[e.a].m, s[e.b].m), s[e.b].from, s[e.a].to))
    [] e.op = "inv" -> IF Det(s[e.g].m) = 0 THEN Fails(s, e, "non_invertible_matrix")
                       ELSE IF s[e.g].k = "m" THEN To(s, e, [k |-> "m", m |-> Inv(s[e.g].m)])
                       ELSE To(s, e, F(Inv(s[e.g].m), s[e.g].to, s[e.g].from))
    [] e.op = "norm" -> To(s, e, [k |-> "m", m |-> Norm(s[e.g].m)])
    \* one element changed in place
    [] e.op = "set" -> To(s, e, [s[e.h] EXCEPT !.m = LET q == [s[e.h].m.m EXCEPT ![e.i] = 0]
                                                         \* brought to the smaller of both exponents
                                                         x == IF s[e.h].m.e < 0 THEN s[e.h].m.e ELSE 0
                                                     IN Canon([k \in 1..9 |-> IF k = e.i THEN e.v * 2 ^ (0 - x) ELSE q[k] * 2 ^ (s[e.h].m.e - x)], x)])
    [] e.op = "show" -> To(s, e, s[e.h])
    [] e.op = "map" -> LET r == Maps(s[e.g].m, e.x, e.y)
                       IN IF r.inf THEN Fails(s, e, "point_maps_to_infinity") ELSE Res(e.err = "" /\ e.m = r.p.m /\ e.e = r.p.e, s, r.p)
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
