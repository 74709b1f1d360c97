------------------------------- MODULE MCHoms -------------------------------
(* C26: chains of compositions and inversions of homographies between three  *)
(* frames.  Every object of a chain also maps points as its parts do.        *)
EXTENDS Homs, Json, CSV, IOUtils
CONSTANTS MaxOps
VARIABLES s, hist
Gens == << [h |-> "a", f |-> "1", t |-> "2", m |-> <<0, -1, 2, 1, 0, 0, 0, 0, 1>>], [h |-> "b", f |-> "2", t |-> "3", m |-> <<1, 0, 0, 0, 2, -1, 1, 0, 1>>],
           [h |-> "c", f |-> "3", t |-> "1", m |-> <<1, 2, 3, 0, 1, 4, 0, 0, 2>>] >>
\* an object with a ghost: the list of generators (and their inverses) it is made of
Start == [h \in {"a", "b", "c"} |-> LET g == CHOOSE i \in 1..3 : Gens[i].h = h
                                   IN [x |-> F(Canon(Gens[g].m, 0), Gens[g].f, Gens[g].t), w |-> <<g>>]]
Init == s = Start /\ hist = <<>>
H == {"a", "b", "c"}
Mul2(h, a, b) == s[a].x.from = s[b].x.to /\ Len(s[a].w) + Len(s[b].w) <= 4 /\ s' = [s EXCEPT ![h] = [x |-> F(Mul(s[a].x.m, s[b].x.m), s[b].x.from, s[a].x.to), w |-> s[a].w \o s[b].w]]
MulBad(a, b) == s[a].x.from # s[b].x.to /\ UNCHANGED s
Rev(w) == [i \in 1..Len(w) |-> -w[Len(w) + 1 - i]]
Inv2(h, a) == s' = [s EXCEPT ![h] = [x |-> F(Inv(s[a].x.m), s[a].x.to, s[a].x.from), w |-> Rev(s[a].w)]]
Next == /\ Len(hist) < MaxOps
        /\ \E h, a, b \in H : \/ (Mul2(h, a, b) \/ (h = "a" /\ MulBad(a, b))) /\ hist' = Append(hist, <<"mul", h, a, b>>)
                              \/ b = "a" /\ Inv2(h, a) /\ hist' = Append(hist, <<"inv", h, a>>)
                              \/ b = "b" /\ a # h /\ s' = [s EXCEPT ![h] = s[a]] /\ hist' = Append(hist, <<"assign", h, a>>)
Spec == Init /\ [][Next]_<<s, hist>>
\* the value of a word does not depend on how it was put together
GenM(g) == IF g > 0 THEN Canon(Gens[g].m, 0) ELSE Inv(Canon(Gens[-g].m, 0))
RECURSIVE Val(_)
Val(w) == IF w = <<>> THEN Ident ELSE Mul(GenM(w[1]), Val(Tail(w)))
To1(g) == IF g > 0 THEN Gens[g].t ELSE Gens[-g].f
From1(g) == IF g > 0 THEN Gens[g].f ELSE Gens[-g].t
Grouping == \A h \in H : LET o == s[h] IN o.x.m = Val(o.w) /\ o.x.to = To1(o.w[1]) /\ o.x.from = From1(o.w[Len(o.w)])
                                          /\ \A i \in 1..Len(o.w) - 1 : From1(o.w[i]) = To1(o.w[i + 1])
Undoes == \A h \in H : Mul(Inv(s[h].x.m), s[h].x.m) = Ident /\ Mul(s[h].x.m, Inv(s[h].x.m)) = Ident
Script(q) == [i \in 1..3 |-> <<"f2f", Gens[i].h, "d", "d", Gens[i].f, Gens[i].t, "0">> \o [k \in 1..9 |-> ToString(Gens[i].m[k])]] \o q
             \o << <<"set", "a", "1", "5">>, <<"show", "a">>, <<"show", "b">>, <<"show", "c">> >>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(hist') = MaxOps THEN CSVWrite("%1$s", <<ToJson(Script(hist'))>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
