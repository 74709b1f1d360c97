------------------------------- MODULE MCCovs -------------------------------
(* C36: the packed triangular storage is a refinement of the symmetric       *)
(* matrix; writes, copies and conversions of two objects.                    *)
EXTENDS Covs, Json, CSV, IOUtils
CONSTANTS MaxOps, N
VARIABLES s, packed, hist
\* the index of an element in the packed storage, from 0
Idx(i, j) == IF j > i THEN ((j - 1) * j) \div 2 + (i - 1) ELSE ((i - 1) * i) \div 2 + (j - 1)
Size == (N * (N + 1)) \div 2
ASSUME \A n \in 1..7 : {Idx(i, j) : i, j \in 1..n} = 0..((n * (n + 1)) \div 2 - 1)
ASSUME \A n \in 1..6 : \A i, j, k, l \in 1..n : Idx(i, j) = Idx(k, l) <=> {i, j} = {k, l}
V == {-2, 4}
H == {"x", "y"}
X0(v) == [n |-> N, t |-> "d", m |-> [p \in (1..N) \X (1..N) |-> IF p[1] = p[2] THEN v ELSE 0]]
P0(v) == [i \in 0..Size - 1 |-> IF \E j \in 1..N : Idx(j, j) = i THEN v ELSE 0]
Init == s = [x |-> X0(2), y |-> X0(6)] /\ packed = [x |-> P0(2), y |-> P0(6)] /\ hist = <<>>
Set(h, i, j, v) == /\ s' = [s EXCEPT ![h].m[<<i, j>>] = v, ![h].m[<<j, i>>] = v]
                   /\ packed' = [packed EXCEPT ![h][Idx(i, j)] = v]
                   /\ hist' = Append(hist, <<"set", h, ToString(i), ToString(j), ToString(v)>>)
Copy(h, g, op) == h # g /\ s' = [s EXCEPT ![h] = s[g]] /\ packed' = [packed EXCEPT ![h] = packed[g]] /\ hist' = Append(hist, <<op, h, g>>)
Next == Len(hist) < MaxOps /\ \E h, g \in H : \/ \E i, j \in 1..N, v \in V : g = "x" /\ Set(h, i, j, v)
                                             \/ Copy(h, g, "assign") \/ Copy(h, g, "copy")
Spec == Init /\ [][Next]_<<s, packed, hist>>
Refines == \A h \in H : \A i, j \in 1..N : s[h].m[<<i, j>>] = packed[h][Idx(i, j)] /\ s[h].m[<<i, j>>] = s[h].m[<<j, i>>]
Script(q) == << <<"scalar", "x", ToString(N), "d", "2">>, <<"scalar", "y", ToString(N), "d", "6">> >> \o q \o << <<"conv", "z", "x", "f">>, <<"rebuild", "r", "x">>, <<"show", "x">>, <<"show", "y">> >>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(hist') = MaxOps THEN CSVWrite("%1$s", <<ToJson(Script(hist'))>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
