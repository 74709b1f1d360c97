------------------------------ MODULE Geometry ------------------------------
(* Rotations, similarities, cameras, essential and fundamental matrices over *)
(* exactly representable values.  A rotation is a primitive quaternion of    *)
(* integers, up to its sign; its matrix is rational.  Fractions are pairs in *)
(* lowest terms, <<numerator, denominator>>.  Values with square roots in    *)
(* them are compared by their squares, which keep the sign: x|x|.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(n) == IF n < 0 THEN -n ELSE n
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* ---- fractions
Q(n, d) == LET g == Gcd(Abs(n), Abs(d)) IN <<Sgn(d) * (n \div g), Abs(d) \div g>>
QI(n) == <<n, 1>>
Zero == <<0, 1>>
One == <<1, 1>>
AddQ(a, b) == IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
NegQ(a) == <<-a[1], a[2]>>
SubQ(a, b) == AddQ(a, NegQ(b))
\* reduced crosswise first, which keeps the numbers small
MulQ(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN Zero
              ELSE LET g == Gcd(Abs(a[1]), b[2])
                       h == Gcd(Abs(b[1]), a[2])
                   IN <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
InvQ(a) == <<Sgn(a[1]) * a[2], Abs(a[1])>>
DivQ(a, b) == MulQ(a, InvQ(b))
SqQ(a) == <<Sgn(a[1]) * a[1] * a[1], a[2] * a[2]>>
RECURSIVE SumQ(_)
SumQ(v) == IF v = <<>> THEN Zero ELSE AddQ(v[1], SumQ(Tail(v)))
\* ---- vectors of three and matrices of nine fractions, row by row
Vec(F(_)) == <<F(1), F(2), F(3)>>
AddV(u, v) == LET F(i) == AddQ(u[i], v[i]) IN Vec(F)
NegV(u) == LET F(i) == NegQ(u[i]) IN Vec(F)
SubV(u, v) == AddV(u, NegV(v))
ScaleV(s, u) == LET F(i) == MulQ(s, u[i]) IN Vec(F)
VecI(u) == LET F(i) == QI(u[i]) IN Vec(F)
Row(k) == ((k - 1) \div 3) + 1
Col(k) == ((k - 1) % 3) + 1
At(m, i, j) == m[3 * (i - 1) + j]
MulMV(m, v) == LET F(i) == SumQ(<<MulQ(At(m, i, 1), v[1]), MulQ(At(m, i, 2), v[2]), MulQ(At(m, i, 3), v[3])>>) IN Vec(F)
MulMM(a, b) == [k \in 1..9 |-> SumQ(<<MulQ(At(a, Row(k), 1), At(b, 1, Col(k))), MulQ(At(a, Row(k), 2), At(b, 2, Col(k))), MulQ(At(a, Row(k), 3), At(b, 3, Col(k)))>>)]
Transpose(m) == [k \in 1..9 |-> At(m, Col(k), Row(k))]
ScaleM(s, m) == [k \in 1..9 |-> MulQ(s, m[k])]
IdentM == [k \in 1..9 |-> IF Row(k) = Col(k) THEN One ELSE Zero]
\* ---- vectors of integers
Dot(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
Sq(n) == Sgn(n) * n * n
\* of the vector u divided by its length
Squares(u) == LET F(i) == Q(Sq(u[i]), Dot(u, u)) IN Vec(F)
-----------------------------------------------------------------------------
(* Rotations                                                                 *)
Norm4(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
Canon(q) == LET g == Gcd(Gcd(Abs(q[1]), Abs(q[2])), Gcd(Abs(q[3]), Abs(q[4])))
                k == CHOOSE k \in 1..4 : q[k] # 0 /\ \A j \in 1..k - 1 : q[j] = 0
            IN [i \in 1..4 |-> Sgn(q[k]) * (q[i] \div g)]
IdentR == <<1, 0, 0, 0>>
MulR0(p, q) == << p[1] * q[1] - p[2] * q[2] - p[3] * q[3] - p[4] * q[4],
                  p[1] * q[2] + p[2] * q[1] + p[3] * q[4] - p[4] * q[3],
                  p[1] * q[3] - p[2] * q[4] + p[3] * q[1] + p[4] * q[2],
                  p[1] * q[4] + p[2] * q[3] - p[3] * q[2] + p[4] * q[1] >>
MulR(p, q) == Canon(MulR0(p, q))
InvR(q) == Canon(<<q[1], -q[2], -q[3], -q[4]>>)
\* the matrix times the squared length of the quaternion
RotI(q) == LET w == q[1]
               x == q[2]
               y == q[3]
               z == q[4]
               n == Norm4(q)
           IN << n - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
                 2 * (x * y + w * z), n - 2 * (x * x + z * z), 2 * (y * z - w * x),
                 2 * (x * z - w * y), 2 * (y * z + w * x), n - 2 * (x * x + y * y) >>
RotM(q) == LET r == RotI(q) IN [k \in 1..9 |-> Q(r[k], Norm4(q))]
\* the quaternion of the rotation whose matrix is m divided by n: a column of q times its own transpose, four times that
FromM(m, n) == LET A(i, j) == At(m, i, j)
                   c == << <<n + A(1, 1) + A(2, 2) + A(3, 3), A(3, 2) - A(2, 3), A(1, 3) - A(3, 1), A(2, 1) - A(1, 2)>>,
                           <<A(3, 2) - A(2, 3), n + A(1, 1) - A(2, 2) - A(3, 3), A(1, 2) + A(2, 1), A(1, 3) + A(3, 1)>>,
                           <<A(1, 3) - A(3, 1), A(1, 2) + A(2, 1), n - A(1, 1) + A(2, 2) - A(3, 3), A(2, 3) + A(3, 2)>>,
                           <<A(2, 1) - A(1, 2), A(1, 3) + A(3, 1), A(2, 3) + A(3, 2), n - A(1, 1) - A(2, 2) + A(3, 3)>> >>
               IN Canon(c[CHOOSE i \in 1..4 : c[i] # <<0, 0, 0, 0>>])
RECURSIVE Root(_, _)
Root(n, k) == IF k * k >= n THEN k ELSE Root(n, k + 1)
\* around the axis ax, of integer length, by the angle whose half has the tangent b/a
FromAxis(a, b, ax) == LET m == Root(Dot(ax, ax), 0) IN Canon(<<a * m, b * ax[1], b * ax[2], b * ax[3]>>)
\* yaw, pitch and roll by the tangents of their halves; the axes are swapped from north-east-down to east-north-up
FromYPR(y, p, r) == MulR(MulR(MulR(<<r[1], -r[2], 0, 0>>, <<p[1], 0, -p[2], 0>>), <<y[1], 0, 0, -y[2]>>), <<0, 1, 1, 0>>)
SinCos(t) == LET n == t[1] * t[1] + t[2] * t[2] IN <<Q(2 * t[1] * t[2], n), Q(t[1] * t[1] - t[2] * t[2], n)>>
\* an equal rotation has its pitch between -90 and 90 degrees
YPR(y, p, r) == LET P == SinCos(p)
                    Y == SinCos(y)
                    R == SinCos(r)
                IN IF P[2][1] > 0 THEN Y \o P \o R ELSE <<NegQ(Y[1]), NegQ(Y[2]), P[1], NegQ(P[2]), NegQ(R[1]), NegQ(R[2])>>
SinAxis(q) == LET F(i) == Q(2 * q[1] * q[i + 1], Norm4(q)) IN Vec(F)
CosA(q) == Q(2 * q[1] * q[1] - Norm4(q), Norm4(q))
RECURSIVE Power(_, _)
Power(q, n) == IF n = 0 THEN IdentR ELSE MulR0(Power(q, n - 1), q)
-----------------------------------------------------------------------------
(* Similarities: scale (a fraction), rotation, translation (fractions)       *)
ApplyS(s, v) == AddV(ScaleV(s.s, MulMV(RotM(s.q), v)), s.t)
MulS(a, b) == [s |-> MulQ(a.s, b.s), q |-> MulR(a.q, b.q), t |-> ApplyS(a, b.t)]
InvS(a) == [s |-> InvQ(a.s), q |-> InvR(a.q), t |-> NegV(ScaleV(InvQ(a.s), MulMV(RotM(InvR(a.q)), a.t)))]
IdentS == [s |-> One, q |-> IdentR, t |-> <<Zero, Zero, Zero>>]
Mat4(s) == LET m == ScaleM(s.s, RotM(s.q))
           IN <<m[1], m[2], m[3], s.t[1], m[4], m[5], m[6], s.t[2], m[7], m[8], m[9], s.t[3], Zero, Zero, Zero, One>>
-----------------------------------------------------------------------------
(* Intrinsics: kind, f, pp, ar, sk, dc                                       *)
DefK == [kind |-> "simple", f |-> One, pp |-> <<Zero, Zero>>, ar |-> One, sk |-> Zero, dc |-> <<>>]
MatK(k) == <<k.f, k.sk, k.pp[1], Zero, DivQ(k.f, k.ar), k.pp[2], Zero, Zero, One>>
Distort(k, p) ==
  IF k.kind = "plain" \/ k.dc = <<>> THEN p
  ELSE LET d == k.dc
           n == Len(d)
           x2 == MulQ(p[1], p[1])
           y2 == MulQ(p[2], p[2])
           r2 == AddQ(x2, y2)
           r4 == MulQ(r2, r2)
           r6 == MulQ(r2, r4)
           up == SumQ(<<One, MulQ(d[1], r2), IF n > 1 THEN MulQ(d[2], r4) ELSE Zero, IF n > 4 THEN MulQ(d[5], r6) ELSE Zero>>)
           down == IF n > 7 THEN SumQ(<<One, MulQ(d[6], r2), MulQ(d[7], r4), MulQ(d[8], r6)>>) ELSE One
           sc == DivQ(up, down)
           xy == MulQ(QI(2), MulQ(p[1], p[2]))
           Off(a, b, c2) == IF n > 3 THEN AddQ(MulQ(a, xy), MulQ(b, AddQ(r2, MulQ(QI(2), c2)))) ELSE Zero
       IN <<AddQ(MulQ(sc, p[1]), IF n > 3 THEN Off(d[3], d[4], x2) ELSE Zero), AddQ(MulQ(sc, p[2]), IF n > 3 THEN Off(d[4], d[3], y2) ELSE Zero)>>
ApplyK(k, p) == <<SumQ(<<MulQ(k.f, p[1]), MulQ(k.sk, p[2]), k.pp[1]>>), AddQ(MulQ(DivQ(k.f, k.ar), p[2]), k.pp[2])>>
MapK(k, p) == ApplyK(k, Distort(k, p))
\* without distortion
UnmapK(k, p) == LET y == DivQ(MulQ(SubQ(p[2], k.pp[2]), k.ar), k.f)
                IN <<DivQ(SubQ(SubQ(p[1], k.pp[1]), MulQ(y, k.sk)), k.f), y>>
Flat(p) == <<DivQ(p[1], p[3]), DivQ(p[2], p[3])>>
-----------------------------------------------------------------------------
(* Cameras: center c (fractions), rotation q, intrinsics (a name of the      *)
(* shared ones), covariance cv; or rotated to look along d with u up.        *)
Rows(x) == <<Cross(x.d, x.u), Cross(x.d, Cross(x.d, x.u)), x.d>>
Ints(v) == <<v[1][1], v[2][1], v[3][1]>>
Trans(x) == NegV(MulMV(RotM(x.q), x.c))
LookR(x) == LET r == Rows(x) IN Squares(r[1]) \o Squares(r[2]) \o Squares(r[3])
LookT(x) == LET r == Rows(x)
                F(i) == Q(-Sq(Dot(r[i], Ints(x.c))), Dot(r[i], r[i]))
            IN Vec(F)
MatP(x, k) == LET K == MatK(k)
                  KR == MulMM(K, RotM(x.q))
                  Kt == MulMV(K, Trans(x))
              IN <<KR[1], KR[2], KR[3], Kt[1], KR[4], KR[5], KR[6], Kt[2], KR[7], KR[8], KR[9], Kt[3]>>
InCam(x, p) == MulMV(RotM(x.q), SubV(p, x.c))
Project(x, k, p) == MapK(k, Flat(InCam(x, p)))
\* a camera that has not been given a covariance has any
Cov0 == <<>>
-----------------------------------------------------------------------------
(* Essential matrices: rotation q and translation t (integers, of which only *)
(* the direction counts)                                                     *)
Twist(q, t) == MulR(<<0, t[1], t[2], t[3]>>, q)
EssI(q, t) == LET r == RotI(q)
                  C(j) == Cross(t, <<At(r, 1, j), At(r, 2, j), At(r, 3, j)>>)
              IN [k \in 1..9 |-> C(Col(k))[Row(k)]]
EssSq(q, t) == LET m == EssI(q, t) IN [k \in 1..9 |-> Q(Sq(m[k]), Norm4(q) * Norm4(q) * Dot(t, t))]
\* ---- fundamental matrices: U diag(sv) V', its smallest singular value removed, of norm one
FunSq(p, q, sv) == LET u == RotI(p)
                       v == RotI(q)
                       e(k) == At(u, Row(k), 1) * sv[1] * At(v, Col(k), 1) + At(u, Row(k), 2) * sv[2] * At(v, Col(k), 2)
                   IN [k \in 1..9 |-> Q(Sq(e(k)), Norm4(p) * Norm4(p) * Norm4(q) * Norm4(q) * (sv[1] * sv[1] + sv[2] * sv[2]))]
-----------------------------------------------------------------------------
GInit == [R |-> <<>>, S |-> <<>>, E |-> <<>>, F |-> <<>>, K |-> <<>>, H |-> <<>>, C |-> <<>>, n |-> 0]
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
SaysR(e, q) == LET m == RotM(q)
               IN /\ e.m = m /\ e.v = m /\ e.again = m /\ e.ragain = m /\ e.magain = m
                  /\ e.unit = One /\ (q # IdentR => e.axlen = One) /\ e.range /\ e.rrange
                  /\ e.sin = SinAxis(q) /\ e.rsin = SinAxis(q) /\ e.cos = CosA(q) /\ e.rcos = CosA(q)
\* a new rotation: id names the very value, for the comparison
PutR(s, h, t, q, id) == [s EXCEPT !.R = (h :> [q |-> q, t |-> t, id |-> id]) @@ s.R, !.n = s.n + 1]
NewR(s, e, q) == Res(SaysR(e, q), PutR(s, e.h, e.t, q, s.n), <<q, RotM(q), SinAxis(q), CosA(q)>>)
SaysS(e, x) == e.s = x.s /\ e.r = RotM(x.q) /\ e.tr = x.t /\ e.m = Mat4(x)
               /\ LET m == RotM(x.q)
                      V(i, j) == IF j = 4 THEN x.t[i] ELSE AddQ(MulQ(x.s, At(m, i, j)), x.t[i])
                  IN e.v = <<V(1, 1), V(1, 2), V(1, 3), V(1, 4), V(2, 1), V(2, 2), V(2, 3), V(2, 4), V(3, 1), V(3, 2), V(3, 3), V(3, 4), Zero, Zero, Zero, Zero>>
NewS(s, e, x, id) == Res(SaysS(e, x), [s EXCEPT !.S = (e.h :> [x |-> x, id |-> id]) @@ s.S, !.n = s.n + 1], <<x, Mat4(x)>>)
\* equal exactly when they are copies of each other; differently made ones of the same value may be
Compare(e, same, differ) == e.eq # e.ne /\ (same => e.eq) /\ (differ => e.ne)
SaysE(e, x) == /\ e.r = RotM(x.q) /\ e.br = e.r /\ e.tr = Squares(x.t) /\ e.btr = e.tr
               /\ e.e = EssSq(x.q, x.t) /\ e.be = e.e
               /\ e.w = RotM(Twist(x.q, x.t)) /\ e.bw = e.w /\ e.bbw = e.w
NewE(s, e, x) == Res(SaysE(e, x), [s EXCEPT !.E = (e.h :> x) @@ s.E], x)
NewF(s, e, f) == Res(e.f = f, [s EXCEPT !.F = (e.h :> f) @@ s.F], f)
SaysK(e, k) == e.k = MatK(k) /\ e.f = k.f /\ e.pp = k.pp /\ e.ar = k.ar /\ e.sk = k.sk /\ e.dc = k.dc
\* a new object of intrinsics, under a name
NewK(s, e, k) == Res(SaysK(e, k), [s EXCEPT !.K = (e.h :> s.n) @@ s.K, !.H = (s.n :> k) @@ s.H, !.n = s.n + 1], <<k, MatK(k)>>)
Streamed(k) == [k EXCEPT !.kind = "simple", !.dc = IF k.dc = <<Zero>> THEN <<>> ELSE k.dc]
SaysC(s, e, x) == /\ e.c = x.c /\ e.gc = x.c /\ e.gr = e.r /\ (x.cv # <<>> => e.cv = x.cv) /\ e.look = x.look
                  /\ IF x.look THEN e.r = LookR(x) /\ e.tr = LookT(x)
                     ELSE e.r = RotM(x.q) /\ e.tr = Trans(x) /\ e.p = MatP(x, s.H[x.k])
                  /\ SaysK(e, s.H[x.k])
ShowC(s, x) == IF x.look THEN <<x, LookR(x), LookT(x)>> ELSE <<x, RotM(x.q), Trans(x), MatP(x, s.H[x.k]), s.H[x.k]>>
PutC(s0, e, x) == LET s == [s0 EXCEPT !.C = (e.h :> x) @@ s0.C] IN Res(SaysC(s, e, x), s, ShowC(s, x))
\* with intrinsics of its own
Own(s, k) == [s EXCEPT !.H = (s.n :> k) @@ s.H, !.n = s.n + 1]
NoLook == [look |-> FALSE, d |-> <<0, 0, 0>>, u |-> <<0, 0, 0>>]
Cam(c, q, k, cv) == [c |-> c, q |-> q, k |-> k, cv |-> cv] @@ NoLook
Sym(v) == <<QI(v[1]), QI(v[2]), QI(v[3]), QI(v[2]), QI(v[4]), QI(v[5]), QI(v[3]), QI(v[5]), QI(v[6])>>

Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, GInit, "")
    [] e.op = "end" -> Res(TRUE, s, "")
    [] e.op = "rq" -> NewR(s, e, Canon(e.q))
    [] e.op = "rid" -> LET r == NewR(s, e, IdentR) IN [r EXCEPT !.ok = r.ok /\ e.noaxis]
    [] e.op = "rm" -> NewR(s, e, FromM(e.mm, e.n))
    [] e.op \in {"raa", "rrod"} -> NewR(s, e, FromAxis(e.ab[1], e.ab[2], e.ax))
    [] e.op = "rypr" -> LET r == NewR(s, e, FromYPR(e.y, e.p, e.rl)) IN Res(r.ok /\ e.ypr = YPR(e.y, e.p, e.rl), r.st, <<r.exp, YPR(e.y, e.p, e.rl)>>)
    [] e.op = "rinv" -> NewR(s, e, InvR(s.R[e.a].q))
    [] e.op = "rmul" -> NewR(s, e, MulR(s.R[e.a].q, s.R[e.b].q))
    [] e.op = "rcopy" -> LET q == s.R[e.g].q IN Res(SaysR(e, q), PutR(s, e.h, e.t, q, s.R[e.g].id), <<q, RotM(q)>>)
    [] e.op = "rcast" -> NewR(s, e, s.R[e.g].q)
    [] e.op = "rstream" -> LET r == NewR(s, e, s.R[e.g].q) IN [r EXCEPT !.ok = r.ok /\ e.good]
    [] e.op = "req" -> Res(Compare(e, s.R[e.a].id = s.R[e.b].id, s.R[e.a].q # s.R[e.b].q), s, "eq")
    [] e.op = "rvec" -> LET v == MulMV(RotM(s.R[e.a].q), VecI(e.in)) IN Res(e.out = v, s, v)
    \* by their integers: angles of next to nothing and next to half a turn
    [] e.op = "rbig" -> LET m == RotI(e.q)
                            F(i) == 2 * e.q[1] * e.q[i + 1]
                            c == <<2 * e.q[1] * e.q[1] - Norm4(e.q)>>
                            V(i) == At(m, i, 1) - 2 * At(m, i, 2)
                        IN Res(/\ e.n = Norm4(e.q) /\ e.m = m /\ e.again = m /\ e.ragain = m /\ e.magain = m /\ e.half = m /\ e.ypr \in {m, <<>>}
                               /\ e.inv = Transpose(m) /\ e.id = [k \in 1..9 |-> IF Row(k) = Col(k) THEN e.n ELSE 0]
                               /\ e.sin = Vec(F) /\ e.rsin = Vec(F) /\ e.cos = c /\ e.rcos = c /\ e.range /\ e.v = Vec(V), s, m)
    \* the first order in the angle
    [] e.op = "rtiny" -> LET x == e.ax
                             m == <<0, -x[3], x[2], x[3], 0, -x[1], -x[2], x[1], 0>>
                         IN Res(/\ e.m = m /\ e.again = m /\ e.ragain = m /\ e.half = m /\ e.rod = x /\ e.aa = x
                                /\ e.inv = Transpose(m) /\ e.two = [k \in 1..9 |-> 2 * m[k]] /\ e.v = Cross(x, <<1, -2, 0>>), s, m)
    [] e.op = "rinterp" -> \* on the way from a to a*c^n, which takes less than half a turn
         LET c == s.R[e.c].q
             a == s.R[e.a].q
             ok == \A k \in 1..e.n : Power(c, k)[1] > 0
             m == [k \in 1..e.n - 1 |-> RotM(MulR(a, Power(c, k)))]
         IN Res(Assert(ok, "interpolation over half a turn") /\ e.all = <<RotM(c)>> \o m /\ e.one = m, s, <<RotM(c)>> \o m)
    [] e.op = "sid" -> NewS(s, e, IdentS, s.n)
    [] e.op = "snew" -> NewS(s, e, [s |-> e.sc[1], q |-> s.R[e.a].q, t |-> e.tt], s.n)
    [] e.op = "smat" -> NewS(s, e, [s |-> e.sc[1], q |-> FromM(e.mm, e.n), t |-> e.tt], s.n)
    [] e.op = "sinv" -> NewS(s, e, InvS(s.S[e.a].x), s.n)
    [] e.op = "smul" -> NewS(s, e, MulS(s.S[e.a].x, s.S[e.b].x), s.n)
    [] e.op \in {"sround", "scast"} -> NewS(s, e, s.S[e.g].x, s.n)
    [] e.op = "scopy" -> NewS(s, e, s.S[e.g].x, s.S[e.g].id)
    [] e.op = "sstream" -> LET r == NewS(s, e, s.S[e.g].x, s.n) IN [r EXCEPT !.ok = r.ok /\ e.good]
    [] e.op = "seq" -> Res(Compare(e, s.S[e.a].id = s.S[e.b].id, s.S[e.a].x # s.S[e.b].x), s, "eq")
    [] e.op = "svec" -> LET v == ApplyS(s.S[e.a].x, VecI(e.in)) IN Res(e.out = v, s, v)
    [] e.op = "enew" -> NewE(s, e, [q |-> s.R[e.a].q, t |-> e.tt])
    \* either of the two rotations, and either direction of the translation
    [] e.op = "emat" -> LET q == Canon(e.q)
                            X == {[q |-> p, t |-> u] : p \in {q, Twist(q, e.tt)}, u \in {e.tt, <<-e.tt[1], -e.tt[2], -e.tt[3]>>}}
                            Y == {x \in X : SaysE(e, x)}
                        IN IF Y = {} THEN Res(FALSE, s, X) ELSE NewE(s, e, CHOOSE x \in Y : TRUE)
    [] e.op \in {"ecopy", "eclone", "eof"} -> NewE(s, e, s.E[e.g])
    [] e.op = "fnew" -> NewF(s, e, FunSq(Canon(e.q), Canon(e.q2), e.sv))
    [] e.op \in {"fcopy", "fclone", "fof"} -> NewF(s, e, s.F[e.g])
    [] e.op = "kdef" -> NewK(s, e, DefK)
    [] e.op = "knew" -> NewK(s, e, [kind |-> IF e.kind = "plain" THEN "plain" ELSE "simple", f |-> e.in[1], pp |-> <<e.in[2], e.in[3]>>, ar |-> e.in[4], sk |-> e.in[5],
                                    dc |-> IF e.kind = "plain" THEN <<>> ELSE e.din])
    [] e.op = "kset" -> LET k == s.H[s.K[e.h]]
                            k2 == CASE e.what = "f" -> [k EXCEPT !.f = e.in[1]]
                                    [] e.what = "ar" -> [k EXCEPT !.ar = e.in[1]]
                                    [] e.what = "sk" -> [k EXCEPT !.sk = e.in[1]]
                                    [] e.what = "pp" -> [k EXCEPT !.pp = e.in]
                                    [] e.what = "dc" -> [k EXCEPT !.dc = e.in]
                        IN Res(SaysK(e, k2), [s EXCEPT !.H[s.K[e.h]] = k2], <<k2, MatK(k2)>>)
    [] e.op = "kcopy" -> LET k == s.H[s.K[e.g]] IN NewK(s, e, IF e.how = "clone" THEN k ELSE [k EXCEPT !.kind = "simple"])
    [] e.op = "kstream" -> LET r == NewK(s, e, Streamed(s.H[s.K[e.g]])) IN [r EXCEPT !.ok = r.ok /\ e.good]
    [] e.op = "kshow" -> Res(SaysK(e, s.H[s.K[e.h]]), s, s.H[s.K[e.h]])
    [] e.op = "kmap" -> LET p == MapK(s.H[s.K[e.a]], e.in) IN Res(e.out = p, s, p)
    [] e.op = "kmap3" -> LET p == MapK(s.H[s.K[e.a]], Flat(e.in)) IN Res(e.out = p, s, p)
    [] e.op = "kunmap" -> LET p == UnmapK(s.H[s.K[e.a]], e.in) IN Res(e.out = p, s, p)
    [] e.op = "kdist" -> LET p == Distort(s.H[s.K[e.a]], e.in) IN Res(e.out = p, s, p)
    [] e.op = "kround" -> Res(e.und = e.in /\ e.unm = e.in, s, e.in)
    [] e.op = "cdef" -> PutC(Own(s, DefK), e, Cam(<<Zero, Zero, Zero>>, IdentR, s.n, Cov0))
    [] e.op = "cnew" -> LET q == s.R[e.a].q
                            c == VecI(e.cc)
                        IN CASE e.how = "ptr" -> PutC(s, e, Cam(c, q, s.K[e.b], Cov0))
                             [] e.how = "ref" -> PutC(Own(s, s.H[s.K[e.b]]), e, Cam(c, q, s.n, Cov0))
                             [] OTHER -> PutC(Own(s, DefK), e, Cam(c, q, s.n, Cov0))
    [] e.op = "ccopy" -> PutC(s, e, s.C[e.g])
    [] e.op = "cset" -> LET x == s.C[e.h]
                        IN CASE e.what = "c" -> PutC(s, e, [x EXCEPT !.c = VecI(e.in)])
                             [] e.what = "t" -> PutC(s, e, [x EXCEPT !.c = NegV(MulMV(RotM(InvR(x.q)), VecI(e.in)))])
                             [] e.what = "r" -> PutC(s, e, [x EXCEPT !.q = s.R[e.a].q, !.look = FALSE])
                             [] e.what = "cv" -> PutC(s, e, [x EXCEPT !.cv = Sym(e.in)])
                             [] e.a = "" -> PutC(Own(s, DefK), e, [x EXCEPT !.k = s.n])
                             [] OTHER -> PutC(s, e, [x EXCEPT !.k = s.K[e.a]])
    \* what it looks at is in the middle, at its distance
    [] e.op = "clook" -> LET x == [s.C[e.h] EXCEPT !.look = TRUE, !.d = e.d, !.u = IF e.how = "def" THEN <<0, 0, 1>> ELSE e.u]
                             r == PutC(s, e, x)
                         IN Res(r.ok /\ e.atp = s.H[x.k].pp /\ e.atd = QI(Dot(e.d, e.d)), r.st, r.exp)
    [] e.op = "cshow" -> LET x == s.C[e.h] IN Res(SaysC(s, e, x), s, ShowC(s, x))
    [] e.op = "cproj" -> LET x == s.C[e.a]
                             p == Project(x, s.H[x.k], e.in)
                         IN Res(e.out = p /\ e.dep = InCam(x, e.in)[3], s, <<p, InCam(x, e.in)[3]>>)
    [] e.op = "cback" -> Res(e.out = e.in, s, e.in)
    [] e.op = "cstream" -> LET x == s.C[e.g]
                               r == PutC(Own(s, Streamed(s.H[x.k])), e, [x EXCEPT !.k = s.n, !.cv = Cov0])
                           IN [r EXCEPT !.ok = r.ok /\ e.good]
    [] OTHER -> Res(FALSE, s, "unknown event")
=============================================================================
