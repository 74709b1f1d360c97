----------------------------- MODULE MCGeometry -----------------------------
(* C39: compositions and inversions of rotations and similarities.  Every    *)
(* object carries the word of generators it was made of; its matrix and what *)
(* it does to points must be those of the word, however it was put together. *)
(* What is made of them (cameras, essential and fundamental matrices) obeys  *)
(* the equations that define it.                                             *)
EXTENDS Geometry, Json, CSV, IOUtils
CONSTANTS MaxOps, Wide, Wrong
VARIABLES s, hist
Gen == << <<1, 1, 0, 0>>, IF Wide THEN <<2, 0, 1, 0>> ELSE <<1, 1, 1, 1>>, <<1, 2, 0, -2>> >>
GenS == << [s |-> <<2, 1>>, q |-> <<1, 0, 0, 1>>, t |-> <<One, Zero, QI(-2)>>], [s |-> <<1, 2>>, q |-> <<2, 1, 0, 0>>, t |-> <<Zero, QI(3), One>>] >>
RN == {"d1", "d2", "d3"}
SN == {"d5", "d6"}
GInv(q) == IF Wrong = "sign" THEN Canon(<<q[1], -q[2], -q[3], q[4]>>) ELSE InvR(q)
GMul(p, q) == IF Wrong = "order" THEN MulR(q, p) ELSE MulR(p, q)
Init == /\ s = [h \in RN \cup SN |-> CASE h = "d1" -> [x |-> Gen[1], w |-> <<1>>] [] h = "d2" -> [x |-> Gen[2], w |-> <<2>>] [] h = "d3" -> [x |-> Gen[3], w |-> <<3>>]
                                       [] h = "d5" -> [x |-> GenS[1], w |-> <<1>>] [] h = "d6" -> [x |-> GenS[2], w |-> <<2>>]]
        /\ hist = <<>>
Rev(w) == [i \in 1..Len(w) |-> -w[Len(w) + 1 - i]]
Short(a, b) == Len(s[a].w) + Len(s[b].w) <= 4
Next == /\ Len(hist) < MaxOps
        /\ \/ \E h, a, b \in RN : /\ h = "d3" => a # "d3" /\ b # "d3"
                                  /\ Short(a, b)
                                  /\ s' = [s EXCEPT ![h] = [x |-> GMul(s[a].x, s[b].x), w |-> s[a].w \o s[b].w]]
                                  /\ hist' = Append(hist, <<"rmul", "d", h, a, b>>)
           \/ \E h, a \in RN : s' = [s EXCEPT ![h] = [x |-> GInv(s[a].x), w |-> Rev(s[a].w)]] /\ hist' = Append(hist, <<"rinv", "d", h, a>>)
           \/ \E h, a, b \in SN : /\ Short(a, b)
                                  /\ s' = [s EXCEPT ![h] = [x |-> MulS(s[a].x, s[b].x), w |-> s[a].w \o s[b].w]]
                                  /\ hist' = Append(hist, <<"smul", "d", h, a, b>>)
           \/ \E h, a \in SN : s' = [s EXCEPT ![h] = [x |-> InvS(s[a].x), w |-> Rev(s[a].w)]] /\ hist' = Append(hist, <<"sinv", "d", h, a>>)
Spec == Init /\ [][Next]_<<s, hist>>
-----------------------------------------------------------------------------
GM(g) == IF g > 0 THEN RotM(Gen[g]) ELSE Transpose(RotM(Gen[-g]))
RECURSIVE ValM(_)
ValM(w) == IF w = <<>> THEN IdentM ELSE MulMM(GM(w[1]), ValM(Tail(w)))
\* a similarity by its definition; the inverse solves for the point
GS(g, v) == IF g > 0 THEN LET x == GenS[g] IN AddV(ScaleV(x.s, MulMV(RotM(x.q), v)), x.t)
            ELSE LET x == GenS[-g] IN MulMV(Transpose(RotM(x.q)), ScaleV(InvQ(x.s), SubV(v, x.t)))
RECURSIVE ValS(_, _)
ValS(w, v) == IF w = <<>> THEN v ELSE GS(w[1], ValS(Tail(w), v))
Pts == {<<Zero, Zero, Zero>>, <<One, QI(-2), QI(3)>>, <<QI(2), One, Zero>>}
Grouping == /\ \A h \in RN : RotM(s[h].x) = ValM(s[h].w)
            /\ \A h \in SN : \A v \in Pts : ApplyS(s[h].x, v) = ValS(s[h].w, v)
Orthonormal == \A h \in RN : LET m == RotM(s[h].x)
                             IN /\ MulMM(m, Transpose(m)) = IdentM /\ MulMM(Transpose(m), m) = IdentM
                                /\ FromM(RotI(s[h].x), Norm4(s[h].x)) = s[h].x /\ FromM([k \in 1..9 |-> 3 * RotI(s[h].x)[k]], 3 * Norm4(s[h].x)) = s[h].x
                                /\ MulR(s[h].x, InvR(s[h].x)) = IdentR /\ InvR(InvR(s[h].x)) = s[h].x
                                /\ LET a == SinAxis(s[h].x)
                                       c == CosA(s[h].x)
                                   IN /\ AddQ(SumQ(<<MulQ(a[1], a[1]), MulQ(a[2], a[2]), MulQ(a[3], a[3])>>), MulQ(c, c)) = One
                                      /\ MulMV(m, a) = a \* the axis stays where it is
                                      /\ SumQ(<<m[1], m[5], m[9]>>) = AddQ(One, MulQ(QI(2), c))
Undoes == \A h \in SN : /\ MulS(InvS(s[h].x), s[h].x) = IdentS /\ MulS(s[h].x, InvS(s[h].x)) = IdentS
                        /\ \A g \in SN : Len(s[g].w) + Len(s[h].w) <= 4 => InvS(MulS(s[g].x, s[h].x)) = MulS(InvS(s[h].x), InvS(s[g].x))
\* a camera: what projects to a point lies on the ray through it, and its matrix does the same
Ks == << DefK, [DefK EXCEPT !.f = QI(2), !.pp = <<QI(3), <<1, 2>> >>, !.ar = QI(2), !.sk = QI(-1)] >>
Cameras == \A h \in RN : Norm4(s[h].x) <= 81 => \A i \in 1..2 :
   LET x == Cam(VecI(<<1, -2, 3>>), s[h].x, 0, <<>>)
       P == MatP(x, Ks[i])
       R(j, p) == SumQ(<<MulQ(P[4 * j + 1], p[1]), MulQ(P[4 * j + 2], p[2]), MulQ(P[4 * j + 3], p[3]), P[4 * j + 4]>>)
   IN /\ MulMV(RotM(InvR(x.q)), NegV(Trans(x))) = x.c
      /\ \A p \in {VecI(<<4, 0, -5>>), VecI(<<0, 1, 1>>)} :
           LET y == InCam(x, p)
               u == Project(x, Ks[i], p)
               n == UnmapK(Ks[i], u)
           IN y[3][1] # 0 => /\ u = <<DivQ(R(0, p), R(2, p)), DivQ(R(1, p), R(2, p))>> /\ R(2, p) = y[3]
                             /\ AddV(x.c, MulMV(RotM(InvR(x.q)), ScaleV(y[3], <<n[1], n[2], One>>))) = p
\* an essential matrix is the same, up to its sign, for the twisted rotation; it takes its translation to nothing
T == {<<1, 2, -2>>, <<0, 0, 3>>}
Essentials == \A h \in RN : Norm4(s[h].x) <= 25 => \A t \in T :
   LET q == s[h].x
       w == Twist(q, t)
       m == EssI(q, t)
       v == EssI(w, t)
   IN /\ \A k \in 1..9 : m[k] * Norm4(w) = -v[k] * Norm4(q)
      /\ Twist(w, t) = q
      /\ \A j \in 1..3 : t[1] * m[j] + t[2] * m[j + 3] + t[3] * m[j + 6] = 0
Show == << <<"rvec", "d", "d1", "1", "-2", "3">>, <<"rvec", "d", "d2", "0", "2", "1">>, <<"svec", "d", "d5", "1", "0", "-2">>, <<"svec", "d", "d6", "3", "1", "0">>,
           <<"req", "d", "d1", "d2">>, <<"seq", "d", "d5", "d6">>, <<"sround", "d", "d7", "d5">>, <<"knew", "k", "simple", "2", "3", "1/2", "2", "-1">> >>
Last(h) == IF Norm4(s'[h].x) <= 25 THEN << <<"cnew", "c", "ptr", h, "k", "1", "-2", "3">>, <<"cback", "c", "4", "0", "-5">>, <<"enew", "d", "d1", h, "1", "2", "-2">> >> ELSE <<>>
St(q) == [i \in 1..Len(q) |-> ToString(q[i])]
Frac(a) == ToString(a[1]) \o "/" \o ToString(a[2])
First == << <<"rq", "d", "d1", "q">> \o St(Gen[1]), <<"rq", "d", "d2", "v">> \o St(Gen[2]), <<"rq", "d", "d3", "q">> \o St(Gen[3]),
            <<"rq", "d", "d8", "q">> \o St(GenS[1].q), <<"snew", "d", "d5", "d8", Frac(GenS[1].s), Frac(GenS[1].t[1]), Frac(GenS[1].t[2]), Frac(GenS[1].t[3])>>,
            <<"rq", "d", "d8", "q">> \o St(GenS[2].q), <<"snew", "d", "d6", "d8", Frac(GenS[2].s), Frac(GenS[2].t[1]), Frac(GenS[2].t[2]), Frac(GenS[2].t[3])>> >>
\* -5 in front of the camera that is not in its own plane only
Front(h) == Norm4(s'[h].x) <= 25 /\ InCam(Cam(VecI(<<1, -2, 3>>), s'[h].x, 0, <<>>), VecI(<<4, 0, -5>>))[3][1] # 0
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(hist') = MaxOps
               THEN CSVWrite("%1$s", <<ToJson(First \o hist' \o Show \o (IF Front("d1") THEN Last("d1") ELSE <<>>) \o (IF Front("d2") THEN Last("d2") ELSE <<>>))>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
