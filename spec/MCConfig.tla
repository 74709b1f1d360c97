------------------------------ MODULE MCConfig ------------------------------
(* Exhaustive bounded exploration of ConfigStore; also the source of the     *)
(* behaviours replayed into the implementation (one script per transition).  *)
EXTENDS ConfigStore, Json, CSV, IOUtils
CONSTANTS RKeys, VKeys, Values, MaxOps, SubKeys
VARIABLES s, hist, last

vars == <<s, hist, last>>
\* handles: "0" root, "1".."2" created later
Handles == {"0", "1", "2"}
Ev(o) == CASE o[1] = "new" -> [op |-> "new", h |-> o[2], name |-> o[3]]
           [] o[1] \in {"view", "sub"} -> [op |-> o[1], h |-> o[2], p |-> o[3], k |-> o[4]]
           [] o[1] = "set" -> [op |-> "set", h |-> o[2], k |-> o[3], v |-> o[4], d |-> o[5]]
           [] o[1] = "merge" -> [op |-> "merge", h |-> o[2], p |-> o[3]]
           [] OTHER -> [op |-> o[1], h |-> o[2], k |-> o[3]]

KeysFor(hd) == IF s.h[hd].pre = "" THEN RKeys ELSE VKeys
Ops == {<<"set", hd, k, v, d>> : hd \in DOMAIN s.h, k \in RKeys \cup VKeys, v \in Values, d \in {"", "D"}}
       \cup {<<o, hd, k>> : o \in {"unset", "mark"}, hd \in DOMAIN s.h, k \in RKeys \cup VKeys}
       \cup {<<o, hd, p, k>> : o \in {"view", "sub"}, hd \in {x \in Handles : x \notin DOMAIN s.h /\ x = ToString(Cardinality(DOMAIN s.h))},
                               p \in DOMAIN s.h, k \in SubKeys}
       \cup {<<"merge", a, b>> : a \in DOMAIN s.h, b \in DOMAIN s.h}
Enabled(o) == /\ o[1] \in {"set", "unset", "mark"} => o[3] \in KeysFor(o[2])
              /\ o[1] = "merge" => (o[2] # o[3] /\ s.h[o[2]].root # s.h[o[3]].root)
              /\ o[1] \in {"set", "unset"} => ~(o[1] = "set" /\ Has(s, o[2], o[3]) /\ Val(s, o[2], o[3]) = o[4] /\ o[5] = "")

\* the merge of a blocked pair may stop at any point
MergeOutcomes(o) ==
  IF MergeBlocked(s, o[2], o[3]) = {}
  THEN {[st |-> WithStore(s, o[2], MergeRows(Store(s, o[2]), s.h[o[2]].pre, DumpRows(s, o[3]))), r |-> "ok"]}
  ELSE {[st |-> WithStore(s, o[2], MergeRows(Store(s, o[2]), s.h[o[2]].pre, sub)), r |-> "!set_ro"] :
          sub \in SUBSET {x \in DumpRows(s, o[3]) : ~IsRO(s, o[2], x[1])}}

Init == /\ s = Apply(CInit, [op |-> "new", h |-> "0", name |-> ""]).st
        /\ hist = << <<"new", "0", "">> >>
        /\ last = <<"new", "ok">>
Next == \E o \in Ops :
          /\ Enabled(o)
          /\ IF o[1] = "merge"
             THEN \E a \in MergeOutcomes(o) : s' = a.st /\ last' = <<o, a.r>>
             ELSE LET a == Apply(s, Ev(o)) IN s' = a.st /\ last' = <<o, a.r>>
          /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
Bound == Len(hist) <= MaxOps
View == s
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.SCRIPTS) ELSE TRUE

-----------------------------------------------------------------------------
(* The listed properties, on the specification *)
\* C01: values and descriptions are kept for the same keys; every lookup of a listed key succeeds
StoreAgrees == /\ \A r \in DOMAIN s.roots : DOMAIN s.roots[r].val = DOMAIN s.roots[r].des
               /\ \A hd \in DOMAIN s.h : \A k \in Keys(s, hd) : Has(s, hd, k)
\* C01: stored values carry no surrounding blanks
Trimmed == \A r \in DOMAIN s.roots : \A k \in DOMAIN s.roots[r].val : Trim(s.roots[r].val[k]) = s.roots[r].val[k]
\* C02: read-only entries never change, and marks are never lost
ReadOnlyFixed == [][\A r \in DOMAIN s.roots : \A k \in s.roots[r].ro :
                      /\ k \in s'.roots[r].ro
                      /\ (k \in DOMAIN s.roots[r].val) = (k \in DOMAIN s'.roots[r].val)
                      /\ k \in DOMAIN s.roots[r].val => /\ s'.roots[r].val[k] = s.roots[r].val[k]
                                                        /\ s'.roots[r].des[k] = s.roots[r].des[k]]_vars
\* C03: an operation through one handle changes only the root that handle refers to
Independent == [][\A r \in DOMAIN s.roots :
                    s'.roots[r] # s.roots[r] => s.h[last'[1][2]].root = r]_vars
\* C03: a view lists exactly what its parent lists below the prefix, plus block-global entries
ViewFilters == \A a, b \in DOMAIN s.h : \A k \in SubKeys :
   (s.h[a].root = s.h[b].root /\ s.h[b].pre = s.h[a].pre \o k \o ":") =>
     Keys(s, b) = {IF StartsWith(x, GlobalPrefix) THEN x ELSE From(x, Len(k) + 2) :
                     x \in {y \in Keys(s, a) : StartsWith(y, k \o ":") \/ StartsWith(y, GlobalPrefix)}}
\* C04: a successful merge yields the union, with the source's values
MergeUnion == [][(last'[1][1] = "merge" /\ last'[2] = "ok") =>
                   LET dst == last'[1][2]  src == last'[1][3]
                   IN /\ Keys(s', dst) = Keys(s, dst) \cup Keys(s, src)
                      /\ \A k \in Keys(s, src) : Val(s', dst, k) = Val(s, src, k)
                      /\ \A k \in Keys(s, dst) \ Keys(s, src) : Val(s', dst, k) = Val(s, dst, k)
                      /\ s'.roots[s.h[src].root] = s.roots[s.h[src].root]
                      /\ Store(s', dst).ro = Store(s, dst).ro]_vars
\* C02: errors are raised exactly for marked keys
ErrorsExact == [][last'[1][1] \in {"set", "unset"} =>
                    /\ (last'[2] \in {"!set_ro", "!unset_ro"}) = IsRO(s, last'[1][2], last'[1][3])
                    /\ last'[2] # "ok" => s' = s]_vars
============================================================================
