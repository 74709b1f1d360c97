------------------------------ MODULE MCTracks ------------------------------
(* All small histories of building tracks, and every query on every set of   *)
(* them.                                                                     *)
EXTENDS Tracks, Json, CSV, IOUtils
CONSTANTS MaxOps, MaxFrame
VARIABLES s, hist
T == {"t", "u"}
Str(x) == ToString(x)
Ops == {<<"append", h, f, Len(hist) + 1, Len(hist) + 51>> : h \in T, f \in 0..MaxFrame} \cup {<<"appendt", h, g>> : h \in T, g \in T}
       \cup {<<"tcopy", "u", "t">>}
Init == s = New(New(KInit, "t", <<>>), "u", <<>>) /\ hist = <<>>
Do(o) == CASE o[1] = "append" -> s' = Append_(s, o[2], << <<o[3], o[4], o[5]>> >>)
           [] o[1] = "appendt" -> s' = Append_(s, o[2], Hist(s, o[3]))
           [] o[1] = "tcopy" -> s' = [s EXCEPT !.tr[o[2]] = s.tr[o[3]]]
Next == Len(hist) < MaxOps /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<s, hist>>
Offs == 0..(MaxFrame + 1)
Neg == {-(i + 1) : i \in Offs}
Show(o) == [i \in 1..Len(o) |-> IF i <= 2 THEN o[i] ELSE IF o[1] = "append" THEN Str(o[i]) ELSE o[i]]
Script(h) == << <<"tnew", "t">>, <<"tnew", "u">>, <<"setid", "u", "7">> >> \o [i \in 1..Len(h) |-> Show(h[i])]
             \o << <<"q", "t">>, <<"q", "u">>, <<"find", "t", "-1", "0", "1", "2", "3", "4">>, <<"set", "s", "t", "u">>, <<"sq">> >>
             \o [i \in 1..(2 * MaxFrame + 6) |-> <<"on", Str(i - MaxFrame - 4)>>]
             \o << <<"lastf">>, <<"pct", "0", "1">>, <<"pct", "-2", "-1">>, <<"byid", "7">>, <<"byid", "0">>, <<"byid", "5">>, <<"q", "u">>, <<"sq">> >>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(hist') = MaxOps THEN CSVWrite("%1$s", <<ToJson(Script(hist'))>>, IOEnv.SCRIPTS) ELSE TRUE

\* C11
AlwaysOrdered == \A h \in T : Ordered(Hist(s, h))
Grows == [][\A h \in T : hist'[Len(hist')][1] # "tcopy" => /\ Len(Hist(s', h)) >= Len(Hist(s, h))
                                                          /\ SubSeq(Hist(s', h), 1, Len(Hist(s, h))) = Hist(s, h)]_<<s, hist>>
FindsStates == \A h \in T : /\ \A i \in 1..Len(Hist(s, h)) : Find(Hist(s, h), Fr(Hist(s, h)[i])) = i
                            /\ \A f \in -1..MaxFrame + 1 : (Find(Hist(s, h), f) = 0) <=> (f \notin FramesOf(Hist(s, h)))
Bounds == \A h \in T : LET q == Hist(s, h) IN q # <<>> => \A f \in FramesOf(q) : FirstOf(q) <= f /\ f <= LastOf(q)
\* C12, on the set of both tracks
W == [s EXCEPT !.set = <<"t", "u">>]
Elts(q) == {q[i] : i \in 1..Len(q)}
Partition == \A o \in Offs \cup Neg : /\ Elts(Active(W, o)) \cap Elts(Inactive(W, o)) = {}
                                      /\ Elts(Active(W, o)) \cup Elts(Inactive(W, o)) = T
                                      /\ Elts(NewOn(W, o)) \cup Elts(Terminated(W, o)) \subseteq Elts(Active(W, o))
                                      /\ Len(OnFrame(W, FrameNo(W, o), 2)) = Len(Active(W, o))
OffsetLaws == SetFrames(W) # {} => /\ FrameNo(W, -1) = SetLast(W)
                                   /\ \A o \in Neg : FrameNo(W, o) > SetLast(W) <=> -o > SetLast(W) + 1
                                   /\ OnFrame(W, SetLast(W), 2) # <<>>
PercentLaws == \A o, p \in Offs \cup Neg : Percent(W, o, p) = Percent(W, p, o) /\ Percent(W, o, p) \in 0..Unit
                 /\ (FrameNo(W, o) = FrameNo(W, p) => Percent(W, o, p) = IF Active(W, o) = <<>> THEN 0 ELSE Unit)
=============================================================================
