------------------------------- MODULE Images -------------------------------
(* Images: views of shared blocks of pixel memory.  A memory block is a      *)
(* sequence of bytes; an image is a geometry g = [o, w, h, d, ws, hs, ds]    *)
(* (offset of the first pixel, dimensions, byte steps) into block m; block 0 *)
(* is memory that images point at without owning it, -1 stands for none.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ExtSize == 48
Pattern(m, n) == [i \in 1..n |-> (m * 37 + (i - 1) * 11) % 256]
IInit == [mem |-> (0 :> Pattern(0, ExtSize)), img |-> <<>>, next |-> 1]
Geo(o, w, h, d, ws, hs, ds) == [o |-> o, w |-> w, h |-> h, d |-> d, ws |-> ws, hs |-> hs, ds |-> ds]
NoGeo == Geo(0, 0, 0, 0, 0, 0, 0)
Planar(w, h, d) == Geo(0, w, h, d, 1, w, w * h)
Interleaved(w, h, d) == Geo(0, w, h, d, d, d * w, 1)

\* the pixels of a geometry: <<column, row, plane>>, counted from 0
Pixels(g) == (0..g.w - 1) \X (0..g.h - 1) \X (0..g.d - 1)
Addr(g, p) == g.o + p[1] * g.ws + p[2] * g.hs + p[3] * g.ds
Addrs(g) == {Addr(g, p) : p \in Pixels(g)}
Size(g) == g.w * g.h * g.d
Distinct(g) == Cardinality(Addrs(g)) = Size(g)
Inside(g, n) == \A a \in Addrs(g) : a \in 0..n - 1
SameDims(g, k) == g.w = k.w /\ g.h = k.h /\ g.d = k.d
At(mem, x, p) == mem[x.m][Addr(x.g, p) + 1]
\* the blocks that some image keeps alive, and the one outside
Live(img) == {0} \cup ({img[i].m : i \in DOMAIN img} \ {-1})
\* blocks are released with their last image
Collect(s) == [s EXCEPT !.mem = [m \in Live(s.img) |-> s.mem[m]]]
Bind(s, i, m, g) == [s EXCEPT !.img = (i :> [m |-> m, g |-> g]) @@ @]
Drop(s, i) == Collect([s EXCEPT !.img = [j \in DOMAIN @ \ {i} |-> @[j]]])
Rebind(s, i, m, g) == Collect(Bind(s, i, m, g))
\* a new block holding bytes b, viewed by image i
Fresh(s, i, b, g) == Collect([Bind(s, i, s.next, g) EXCEPT !.mem = (s.next :> b) @@ @, !.next = @ + 1])

Write(s, x, p, v) == [s EXCEPT !.mem[x.m] = [@ EXCEPT ![Addr(x.g, p) + 1] = v]]
\* every byte of the block that is a pixel of x is replaced by F(pixel)
Put(s, x, F(_)) == IF Size(x.g) = 0 THEN s ELSE
   [s EXCEPT !.mem[x.m] = [b \in 1..Len(@) |-> IF b - 1 \in Addrs(x.g) THEN F(CHOOSE p \in Pixels(x.g) : Addr(x.g, p) = b - 1) ELSE @[b]]]
Overlap(x, y) == x.m = y.m /\ Addrs(x.g) \cap Addrs(y.g) # {}
Equal(s, x, y) == SameDims(x.g, y.g) /\ \A p \in Pixels(x.g) : At(s.mem, x, p) = At(s.mem, y, p)
\* the functions that are applied to whole images
Fn(f, v) == CASE f = "neg" -> 255 - v [] f = "inc" -> (v + 1) % 256 [] f = "seven" -> 7 [] f = "id" -> v
\* a geometry whose pixels can be traversed in the order of their addresses by three nested loops
Dims(g) == SelectSeq(<< <<g.w, g.ws>>, <<g.h, g.hs>>, <<g.d, g.ds>> >>, LAMBDA q : q[1] > 1)
Span(q) == (q[1] - 1) * q[2]
Nested(g) == /\ g.ws > 0 /\ g.hs > 0 /\ g.ds > 0
             /\ \E q \in {r \in [1..Len(Dims(g)) -> 1..Len(Dims(g))] : \A i, j \in DOMAIN r : i # j => r[i] # r[j]} :
                  LET d(i) == Dims(g)[q[i]]
                      RECURSIVE Ext(_)
                      Ext(i) == IF i = 0 THEN 0 ELSE Span(d(i)) + Ext(i - 1)
                  IN \A i \in DOMAIN q : d(i)[2] > Ext(i - 1)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Count(q, v) == Cardinality({i \in 1..Len(q) : q[i] = v})

-----------------------------------------------------------------------------
(* every event carries all blocks that exist after the operation, and the    *)
(* geometry of the image it changed                                          *)
Shown(s, e) == /\ Len(e.mem) = Cardinality(DOMAIN s.mem)
               /\ \A i \in 1..Len(e.mem) : e.mem[i].m \in DOMAIN s.mem /\ e.mem[i].b = s.mem[e.mem[i].m]
Sum(q) == Geo(q[1], q[2], q[3], q[4], q[5], q[6], q[7])
Geom(s, i) == LET g == s.img[i].g IN <<g.o, g.w, g.h, g.d, g.ws, g.hs, g.ds>>
BlockSize(s, i) == IF s.img[i].m \in {-1, 0} THEN 0 ELSE Len(s.mem[s.img[i].m])
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
\* the image e.i is as expected: geometry, block and number of bytes
Same(s, e) == e.g = Geom(s, e.i) /\ e.m = s.img[e.i].m /\ e.size = BlockSize(s, e.i)
Shape(s, e) == Res(Shown(s, e) /\ Same(s, e), s, s)
\* any arrangement of the pixels in a new block that holds just them
Arranged(e, w, h, d) == LET g == Sum(e.g) IN g.w = w /\ g.h = h /\ g.d = d /\ Inside(g, w * h * d) /\ Distinct(g)
NewBlock(s, e, w, h, d, b) == LET st == Fresh(s, e.i, b, Sum(e.g)) IN Res(Arranged(e, w, h, d) /\ Shown(st, e) /\ Same(st, e), st, st)
\* what the specification leaves open is taken over as observed
Adopt(s, e) == [s EXCEPT !.mem = [m \in DOMAIN @ |-> IF \E i \in 1..Len(e.mem) : e.mem[i].m = m THEN (e.mem[CHOOSE i \in 1..Len(e.mem) : e.mem[i].m = m]).b ELSE @[m]]]
Obs(s, e, ok, exp) == Res(ok /\ Shown(s, e), s, exp)
OutOf(g, p) == p \notin Pixels(g)
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, IInit, "")
    [] e.op = "null" -> Shape(Rebind(s, e.i, -1, NoGeo), e)
    [] e.op = "new" -> LET g == IF e.il THEN Interleaved(e.w, e.h, e.d) ELSE Planar(e.w, e.h, e.d)
                       IN Shape(Fresh(s, e.i, Pattern(s.next, Size(g)), g), e)
    [] e.op = "ext" -> Shape(Rebind(s, e.i, 0, Sum(e.a)), e)
    [] e.op \in {"copy", "assign", "contain"} -> Shape(Rebind(s, e.i, s.img[e.j].m, s.img[e.j].g), e)
    [] e.op = "view" -> Shape(Rebind(s, e.i, s.img[e.j].m, [Sum(e.a) EXCEPT !.o = @ + s.img[e.j].g.o]), e)
    [] e.op = "dup" -> Shape(Fresh(s, e.i, s.mem[s.img[e.j].m], s.img[e.j].g), e)
    [] e.op = "mcopy" -> Shape([s EXCEPT !.mem[s.img[e.i].m] = s.mem[s.img[e.j].m]], e)
    [] e.op = "drop" -> LET st == Drop(s, e.i) IN Res(Shown(st, e), st, st)
    [] e.op = "set" -> LET x == s.img[e.i]
                           bad == OutOf(x.g, e.p)
                           st == IF bad THEN s ELSE Write(s, x, e.p, e.v)
                       IN Res(e.r = (IF bad THEN "range" ELSE "ok") /\ Shown(st, e), st, <<bad, st>>)
    [] e.op = "get" -> LET x == s.img[e.i]
                       IN IF OutOf(x.g, e.p) THEN Obs(s, e, e.r = "range", "range") ELSE Obs(s, e, e.r = "ok" /\ e.v = At(s.mem, x, e.p), At(s.mem, x, e.p))
    [] e.op = "at" -> LET x == s.img[e.i]
                          q == <<e.p[1], e.p[2], 0>>
                          c(k) == At(s.mem, x, <<e.p[1], e.p[2], k>>)
                      IN IF e.p[1] >= x.g.w \/ e.p[2] >= x.g.h THEN Obs(s, e, e.r = "range", "range")
                         ELSE IF x.g.d = 0 THEN Res(TRUE, s, "")
                         ELSE LET v == IF x.g.d < 3 THEN <<c(0), c(0), c(0)>> ELSE <<c(0), c(1), c(2)>> IN Obs(s, e, e.r = "ok" /\ e.v = v, v)
    [] e.op = "copyfrom" ->
         LET x == s.img[e.i]
             y == s.img[e.j]
             z(p) == At(s.mem, y, p)
         IN IF SameDims(x.g, y.g)
            THEN IF Overlap(x, y) /\ x # y THEN Res(Same(s, e), Adopt(s, e), "overlapping: unspecified")
                 ELSE Shape(Put(s, x, z), e)
            ELSE NewBlock(s, e, y.g.w, y.g.h, y.g.d,
                          [b \in 1..Size(y.g) |-> z(CHOOSE p \in Pixels(y.g) : Addr(Sum(e.g), p) = b - 1)])
    [] e.op = "resize" -> IF SameDims(s.img[e.i].g, [w |-> e.w, h |-> e.h, d |-> e.d]) THEN Shape(s, e)
                          ELSE NewBlock(s, e, e.w, e.h, e.d, Pattern(s.next, e.w * e.h * e.d))
    [] e.op = "equal" -> LET v == Equal(s, s.img[e.i], s.img[e.j]) IN Obs(s, e, e.v = v, v)
    [] e.op = "transform" ->
         LET x == s.img[e.i]
             F(p) == Fn(e.f, At(s.mem, x, p))
             st == Put(s, x, F)
             seq == Sorted(Addrs(x.g))
             inorder == [i \in 1..Len(seq) |-> s.mem[x.m][seq[i] + 1]]
             vals == {At(s.mem, x, p) : p \in Pixels(x.g)}
         IN Res(/\ Shown(st, e) /\ Len(e.calls) = Size(x.g)
                /\ \A v \in vals : Count(e.calls, v) = Cardinality({p \in Pixels(x.g) : At(s.mem, x, p) = v})
                /\ (Nested(x.g) => e.calls = inorder), st, <<st, inorder>>)
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
