------------------------------ MODULE MCImages ------------------------------
(* C15: every history of a few images created, shared, copied, resized and   *)
(* written; C16 (MCImages_geo.cfg): the whole-image operations on every      *)
(* small geometry, with gaps, any order of dimensions and negative steps.    *)
EXTENDS Images, Json, CSV, IOUtils
CONSTANTS MaxOps, GeoMode, MaxDim, Steps
StepSet == {-6, -4, -3, -2, -1, 1, 2, 3, 4, 6}
StepSet3 == {-9, -4, -3, -1, 1, 2, 3, 6, 9}
VARIABLES s, hist, grp, geo
vars == <<s, hist, grp, geo>>
Is == {"a", "b", "c"}
\* the views that are taken of another image: cropped, flipped, turned
Views(g) == {Geo(0, 1, g.h, g.d, g.ws, g.hs, g.ds), Geo((g.w - 1) * g.ws, g.w, g.h, g.d, -g.ws, g.hs, g.ds), Geo(0, g.h, g.w, g.d, g.hs, g.ws, g.ds)}
Has(i) == i \in DOMAIN s.img
T7(g) == <<g.o, g.w, g.h, g.d, g.ws, g.hs, g.ds>>
Ops == {<<"new", i, w, 2, il>> : i \in {"a", "b"}, w \in {1, 2}, il \in {"0", "1"}}
   \cup {<<"assign", i, j>> : i \in Is, j \in DOMAIN s.img}
   \cup {<<"view", "c", j, T7(v)>> : <<j, v>> \in UNION {{k} \X Views(s.img[k].g) : k \in {k \in DOMAIN s.img : Size(s.img[k].g) > 0}}}
   \cup {<<"copyfrom", i, j>> : i \in DOMAIN s.img, j \in DOMAIN s.img}
   \cup {<<"resize", i, 1, 1, 3>> : i \in DOMAIN s.img}
   \cup {<<"set", i, 99>> : i \in {k \in DOMAIN s.img : Size(s.img[k].g) > 0}}
   \cup {<<"transform", i, "inc">> : i \in DOMAIN s.img}
   \cup {<<"drop", i>> : i \in DOMAIN s.img}
   \cup {<<"dup", i, j>> : i \in {"c"}, j \in DOMAIN s.img}
\* grp names the origin of each image's pixels: images share pixels exactly when they have the same origin
G(i, v) == (i :> v) @@ grp
Do(o) == LET i == o[2] IN
  CASE o[1] = "new" -> LET g == IF o[5] = "1" THEN Interleaved(o[3], 1, o[4]) ELSE Planar(o[3], 1, o[4])
                       IN s' = Fresh(s, i, Pattern(s.next, Size(g)), g) /\ grp' = G(i, s.next)
    [] o[1] = "assign" -> s' = Rebind(s, i, s.img[o[3]].m, s.img[o[3]].g) /\ grp' = G(i, grp[o[3]])
    [] o[1] = "view" -> s' = Rebind(s, i, s.img[o[3]].m, [Sum(o[4]) EXCEPT !.o = @ + s.img[o[3]].g.o]) /\ grp' = G(i, grp[o[3]])
    [] o[1] = "copyfrom" -> LET x == s.img[i] y == s.img[o[3]] IN
         IF SameDims(x.g, y.g) THEN (~Overlap(x, y) \/ x = y) /\ s' = Put(s, x, LAMBDA p : At(s.mem, y, p)) /\ UNCHANGED grp
         ELSE LET g == Planar(y.g.w, y.g.h, y.g.d) IN s' = Fresh(s, i, [b \in 1..Size(g) |-> At(s.mem, y, CHOOSE p \in Pixels(g) : Addr(g, p) = b - 1)], g) /\ grp' = G(i, s.next)
    [] o[1] = "resize" -> LET g == Planar(o[3], o[4], o[5]) IN
         IF SameDims(s.img[i].g, g) THEN UNCHANGED <<s, grp>> ELSE s' = Fresh(s, i, Pattern(s.next, Size(g)), g) /\ grp' = G(i, s.next)
    [] o[1] = "set" -> s' = Write(s, s.img[i], <<s.img[i].g.w - 1, 0, 0>>, o[3]) /\ UNCHANGED grp
    [] o[1] = "transform" -> s' = Put(s, s.img[i], LAMBDA p : Fn(o[3], At(s.mem, s.img[i], p))) /\ UNCHANGED grp
    [] o[1] = "drop" -> s' = Drop(s, i) /\ grp' = [j \in DOMAIN grp \ {i} |-> grp[j]]
    [] o[1] = "dup" -> s' = Fresh(s, i, s.mem[s.img[o[3]].m], s.img[o[3]].g) /\ grp' = G(i, s.next)
Geos == {g \in [o : {0}, w : 0..MaxDim, h : 0..MaxDim, d : 0..MaxDim, ws : Steps, hs : Steps, ds : Steps] : Distinct(g)}
NoOne == [o |-> 0, w |-> 0, h |-> 0, d |-> 0, ws |-> 0, hs |-> 0, ds |-> 0]
Low(g) == IF Size(g) = 0 THEN 0 ELSE CHOOSE a \in Addrs(g) : \A b \in Addrs(g) : a <= b
Put0(g) == [g EXCEPT !.o = 2 - Low(g)]
Init == /\ s = IInit /\ hist = <<>> /\ grp = <<>>
        /\ IF GeoMode THEN geo \in {Put0(g) : g \in {k \in Geos : Inside(Put0(k), ExtSize)}} ELSE geo = NoOne
Next == ~GeoMode /\ Len(hist) < MaxOps /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, o) /\ UNCHANGED geo
Spec == Init /\ [][Next]_vars
Str(x) == IF x \in {"a", "b", "c", "0", "1", "new", "assign", "view", "copyfrom", "resize", "set", "transform", "drop", "dup", "inc"} THEN x ELSE ToString(x)
Line(o) == CASE o[1] = "new" -> <<"new", o[2], ToString(o[3]), "1", ToString(o[4]), o[5]>>
             [] o[1] = "view" -> <<"view", o[2], o[3]>> \o [k \in 1..7 |-> ToString(o[4][k])]
             [] o[1] = "resize" -> <<"resize", o[2], ToString(o[3]), ToString(o[4]), ToString(o[5])>>
             [] o[1] = "set" -> <<"setlast", o[2], ToString(o[3])>>
             [] OTHER -> o
Sc == IF GeoMode THEN LET t == [k \in 1..7 |-> ToString(T7(geo)[k])] IN
        << <<"ext", "a">> \o t, <<"null", "b">>, <<"copyfrom", "b", "a">>, <<"equal", "a", "b">>, <<"transform", "a", "neg">>, <<"equal", "a", "b">>, <<"transform", "a", "neg">>, <<"equal", "b", "a">>,
           <<"transform", "b", "inc">>, <<"copyfrom", "a", "b">>, <<"equal", "a", "b">> >>
      ELSE [k \in 1..Len(hist') |-> Line(hist'[k])]
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(hist') = MaxOps THEN CSVWrite("%1$s", <<ToJson(Sc)>>, IOEnv.SCRIPTS) ELSE TRUE
WriteGeo == IF "SCRIPTS" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson(Sc)>>, IOEnv.SCRIPTS) ELSE TRUE

\* C15
Valid == \A i \in DOMAIN s.img : Inside(s.img[i].g, Len(s.mem[s.img[i].m]))
Sharing == \A i, j \in DOMAIN s.img : (grp[i] = grp[j]) <=> (s.img[i].m = s.img[j].m)
KeptAlive == DOMAIN s.mem = Live(s.img)
\* an operation on one image changes the pixels of another only where the two share bytes
NoOther == [][\A j \in DOMAIN s.img \cap DOMAIN s'.img : LET o == hist'[Len(hist')] IN
                (o[2] # j /\ o[2] \in DOMAIN s.img /\ ~Overlap(s.img[o[2]], s.img[j])) =>
                   \A p \in Pixels(s.img[j].g) : At(s.mem, s.img[j], p) = At(s'.mem, s'.img[j], p)]_vars
CopyEqual == [][LET o == hist'[Len(hist')] IN o[1] = "copyfrom" => Equal(s', s'.img[o[2]], s'.img[o[3]])]_vars
\* C16
GX == [m |-> 0, g |-> geo]
S1 == Put(IInit, GX, LAMBDA p : Fn("neg", At(IInit.mem, GX, p)))
EveryPixelOnce == /\ \A p \in Pixels(geo) : At(S1.mem, GX, p) = 255 - At(IInit.mem, GX, p)
                  /\ \A b \in 0..ExtSize - 1 : b \notin Addrs(geo) => S1.mem[0][b + 1] = IInit.mem[0][b + 1]
Dense == Planar(geo.w, geo.h, geo.d)
S2 == [IInit EXCEPT !.mem = (1 :> [b \in 1..Size(geo) |-> At(IInit.mem, GX, CHOOSE p \in Pixels(Dense) : Addr(Dense, p) = b - 1)]) @@ @]
CopyIsEqual == Equal(S2, GX, [m |-> 1, g |-> Dense]) /\ Equal(S2, [m |-> 1, g |-> Dense], GX)
OneDiffers == \A p \in Pixels(geo) : ~Equal(Write(S2, GX, p, (At(S2.mem, GX, p) + 1) % 256), GX, [m |-> 1, g |-> Dense])
=============================================================================
