---------------------------- MODULE MCTimestamps ----------------------------
(* C17: every pair of timestamps over all combinations of validity, domain   *)
(* and relation of the values, and every history of setters of two of them.  *)
EXTENDS Timestamps, Json, CSV, IOUtils
CONSTANTS MaxOps
VARIABLES s, hist
V == {"-3", "0", "7", "10"}
Ops == {<<"time", h, v>> : h \in {"x", "y"}, v \in {"0", "-3"}} \cup {<<"frame", h, v>> : h \in {"x", "y"}, v \in {"10", "7"}}
       \cup {<<"invalid", h>> : h \in {"x", "y"}} \cup {<<"domain", h, "1">> : h \in {"x", "y"}} \cup {<<"copy", "y", "x">>, <<"both", "y", "7", "7">>, <<"new", "x">>}
Ev(o) == CASE o[1] \in {"time", "frame"} -> [op |-> o[1], h |-> o[2], a |-> o[3]]
           [] o[1] = "domain" -> [op |-> o[1], h |-> o[2], a |-> 1]
           [] o[1] = "copy" -> [op |-> o[1], h |-> o[2], g |-> o[3]]
           [] o[1] = "both" -> [op |-> o[1], h |-> o[2], a |-> o[3], b |-> o[4]]
           [] OTHER -> [op |-> o[1], h |-> o[2]]
\* Step's resulting state does not depend on the observations, which are supplied here as expected
Obs == [vt |-> FALSE, vf |-> FALSE, v |-> FALSE, d |-> 0, t |-> "0", f |-> "0"]
Init == s = ("x" :> None) @@ ("y" :> None) /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E o \in Ops : s' = Step(s, Ev(o) @@ Obs).st /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<s, hist>>
All == [vt : BOOLEAN, vf : BOOLEAN, t : V, f : V, d : {0, 1}]
Flip(c) == CASE c = "lt" -> "gt" [] c = "gt" -> "lt" [] OTHER -> c
One(x, y) == LET r == Relations(x, y) IN
  /\ Cardinality({k \in {"eq", "lt", "gt"} : r[k]}) = (IF Compare(x, y) = "none" THEN 0 ELSE 1)
  /\ (r.ne <=> (r.lt \/ r.gt)) /\ Compare(y, x) = Flip(Compare(x, y))
  /\ (Compare(x, y) # "none" <=> x.d = y.d /\ ((x.vt /\ y.vt) \/ (x.vf /\ y.vf)))
ASSUME \A x, y \in All : One(x, y)
ASSUME \A x \in All : Compare(x, x) = IF x.vt \/ x.vf THEN "eq" ELSE "none"
\* within a domain the timestamps that have a time are totally preordered
Timed == {x \in All : x.vt /\ x.d = 0 /\ x.f = "0"}
ASSUME \A x, y, z \in Timed : Compare(x, y) \in {"lt", "eq"} /\ Compare(y, z) \in {"lt", "eq"} => Compare(x, z) \in {"lt", "eq"}
ASSUME Less("-9223372036854775808", "9223372036854775807") /\ Less("-10", "-9") /\ Less("999999999", "1000000000") /\ ~Less("5", "5")
Valid == \A h \in {"x", "y"} : s[h].vt => s[h].t \in V
LastWins == [][LET o == hist'[Len(hist')] IN /\ o[1] = "time" => s'[o[2]].vt /\ s'[o[2]].t = o[3]
                                             /\ o[1] = "frame" => s'[o[2]].vf /\ s'[o[2]].f = o[3]
                                             /\ o[1] = "invalid" => ~s'[o[2]].vt /\ ~s'[o[2]].vf
                                             /\ \A h \in {"x", "y"} : h # o[2] => s'[h] = s[h]]_<<s, hist>>
Script(q) == << <<"new", "x">>, <<"new", "y">> >> \o q \o << <<"q", "x">>, <<"q", "y">>, <<"cmp", "x", "y">>, <<"cmp", "y", "x">>, <<"cmp", "x", "x">>, <<"print", "x">>, <<"print", "y">> >>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(hist') = MaxOps THEN CSVWrite("%1$s", <<ToJson(Script(hist'))>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
