------------------------------- MODULE Tracks -------------------------------
(* Tracks - strictly frame-ordered histories of states - and sets of them.   *)
(* A state is <<frame, feature token, descriptor token>>; tracks are named   *)
(* objects, so that what a set shows follows later changes of its tracks.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

KInit == [tr |-> <<>>, set |-> <<>>, big |-> FALSE]
Fr(st) == st[1]
Hist(s, h) == s.tr[h].h
FirstOf(q) == IF q = <<>> THEN 0 ELSE Fr(q[1])
LastOf(q) == IF q = <<>> THEN 0 ELSE Fr(q[Len(q)])
FramesOf(q) == {Fr(q[i]) : i \in 1..Len(q)}
Ordered(q) == \A i \in 1..Len(q) - 1 : Fr(q[i]) < Fr(q[i + 1])
\* 1-based index of the state of frame f, 0 if there is none
Find(q, f) == IF \E i \in 1..Len(q) : Fr(q[i]) = f THEN CHOOSE i \in 1..Len(q) : Fr(q[i]) = f ELSE 0
CanAppend(q, r) == q = <<>> \/ r = <<>> \/ LastOf(q) < FirstOf(r)

New(s, h, q) == [s EXCEPT !.tr = (h :> [id |-> 0, h |-> q]) @@ @]
Append_(s, h, r) == IF CanAppend(Hist(s, h), r) THEN [s EXCEPT !.tr[h].h = @ \o r] ELSE s

-----------------------------------------------------------------------------
Members(s) == s.set
NonEmpty(s) == {i \in 1..Len(s.set) : Hist(s, s.set[i]) # <<>>}
SetFrames(s) == UNION {FramesOf(Hist(s, s.set[i])) : i \in 1..Len(s.set)}
MinOr0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxOr0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
SetFirst(s) == MinOr0(SetFrames(s))
\* the last frame of a set is not below zero
SetLast(s) == MaxOr0(SetFrames(s) \cup {0})
\* a negative number counts back from one past the last frame; one that leads below frame zero denotes one past the last frame
FrameNo(s, o) == IF o >= 0 THEN o
                 ELSE IF s.big \/ -o <= SetLast(s) + 1 THEN SetLast(s) + 1 + o ELSE SetLast(s) + 1
Sel(s, P(_)) == SelectSeq(s.set, P)
Active(s, o) == LET f == FrameNo(s, o) IN Sel(s, LAMBDA h : Find(Hist(s, h), f) # 0)
Inactive(s, o) == LET f == FrameNo(s, o) IN Sel(s, LAMBDA h : Find(Hist(s, h), f) = 0)
NewOn(s, o) == LET f == FrameNo(s, o) IN Sel(s, LAMBDA h : Hist(s, h) # <<>> /\ FirstOf(Hist(s, h)) = f)
Terminated(s, o) == LET f == FrameNo(s, o) IN Sel(s, LAMBDA h : Hist(s, h) # <<>> /\ LastOf(Hist(s, h)) = f)
\* k = 2: features, k = 3: descriptors of the states on frame f
OnFrame(s, f, k) == LET a == Sel(s, LAMBDA h : Find(Hist(s, h), f) # 0)
                    IN [i \in 1..Len(a) |-> Hist(s, a[i])[Find(Hist(s, a[i]), f)][k]]
Both(s, o, p) == LET f == FrameNo(s, o)  g == FrameNo(s, p) IN Len(Sel(s, LAMBDA h : Find(Hist(s, h), f) # 0 /\ Find(Hist(s, h), g) # 0))
Either(s, o, p) == LET f == FrameNo(s, o)  g == FrameNo(s, p) IN Len(Sel(s, LAMBDA h : Find(Hist(s, h), f) # 0 \/ Find(Hist(s, h), g) # 0))
Unit == 720720
Percent(s, o, p) == IF Either(s, o, p) = 0 THEN 0 ELSE Both(s, o, p) * (Unit \div Either(s, o, p))
ById(s, i) == IF \E k \in 1..Len(s.set) : s.tr[s.set[k]].id = i
              THEN s.set[CHOOSE k \in 1..Len(s.set) : s.tr[s.set[k]].id = i /\ \A j \in 1..k - 1 : s.tr[s.set[j]].id # i] ELSE ""
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == MinOr0(S) IN <<m>> \o SortSet(S \ {m})

-----------------------------------------------------------------------------
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
Eq(got, exp, s) == Res(got = exp, s, exp)
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, KInit, "")
    [] e.op = "base" -> Res(TRUE, [s EXCEPT !.big = e.big], "")
    [] e.op = "tnew" -> Res(TRUE, New(s, e.h, <<>>), "")
    [] e.op = "tstate" -> Res(TRUE, New(s, e.h, << e.st >>), "")
    [] e.op = "tcopy" -> Res(TRUE, [s EXCEPT !.tr = (e.h :> s.tr[e.g]) @@ @], "")
    [] e.op = "setid" -> Res(TRUE, [s EXCEPT !.tr[e.h].id = e.v], "")
    [] e.op = "append" -> Res(e.r = CanAppend(Hist(s, e.h), << e.st >>), Append_(s, e.h, << e.st >>), <<CanAppend(Hist(s, e.h), << e.st >>), Hist(s, e.h)>>)
    [] e.op = "appendt" -> Res(e.r = CanAppend(Hist(s, e.h), Hist(s, e.g)), Append_(s, e.h, Hist(s, e.g)), <<CanAppend(Hist(s, e.h), Hist(s, e.g)), Hist(s, e.h), Hist(s, e.g)>>)
    [] e.op = "q" -> LET q == Hist(s, e.h)
                     IN Eq([id |-> e.id, size |-> e.size, empty |-> e.empty, first |-> e.first, last |-> e.last, frames |-> e.frames, states |-> e.states],
                           [id |-> s.tr[e.h].id, size |-> Len(q), empty |-> (q = <<>>), first |-> FirstOf(q), last |-> LastOf(q),
                            frames |-> [i \in 1..Len(q) |-> Fr(q[i])], states |-> q], s)
    [] e.op = "find" -> Eq(e.r, [i \in 1..Len(e.f) |-> Find(Hist(s, e.h), e.f[i])], s)
    [] e.op = "set" -> Res(TRUE, [s EXCEPT !.set = e.m], "")
    [] e.op = "sq" -> Eq([size |-> e.size, empty |-> e.empty, frames |-> e.frames, ids |-> e.ids, first |-> e.first, last |-> e.last, tracks |-> e.tracks],
                         [size |-> Len(s.set), empty |-> (s.set = <<>>), frames |-> SortSet(SetFrames(s)),
                          ids |-> SortSet({s.tr[s.set[i]].id : i \in 1..Len(s.set)}), first |-> SetFirst(s), last |-> SetLast(s), tracks |-> s.set], s)
    [] e.op = "on" -> Eq([active |-> e.active, inactive |-> e.inactive, new |-> e.new, term |-> e.term, feat |-> e.feat, desc |-> e.desc],
                         [active |-> Active(s, e.o), inactive |-> Inactive(s, e.o), new |-> NewOn(s, e.o), term |-> Terminated(s, e.o),
                          feat |-> OnFrame(s, FrameNo(s, e.o), 2), desc |-> OnFrame(s, FrameNo(s, e.o), 3)], s)
    [] e.op = "lastf" -> Eq([feat |-> e.feat, desc |-> e.desc], [feat |-> OnFrame(s, SetLast(s), 2), desc |-> OnFrame(s, SetLast(s), 3)], s)
    [] e.op = "pct" -> Eq(e.r, Percent(s, e.o, e.p), s)
    [] e.op = "byid" -> Eq(e.r, ById(s, e.v), s)
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
