------------------------------ MODULE MCValues ------------------------------
(* C38: setters, copies, conversions and text round trips of two features    *)
(* and two landmarks: every attribute is what was last set along the chain   *)
(* of copies, and changing one object never changes another.                 *)
EXTENDS Values, Json, CSV, IOUtils
CONSTANTS MaxOps, Kind
VARIABLES s, hist
H == {"x", "y"}
N == IF Kind = "feat" THEN 2 ELSE 3
Cov == [k \in 1..(N * N) |-> IF k \in {1, N + 2, 2 * N + 3} THEN 8 ELSE 2]
Sets == IF Kind = "feat" THEN {<<"loc", <<5, -6>>>>, <<"mag", <<9>>>>, <<"angle", <<-3>>>>, <<"color", <<1, 2, 3>>>>} ELSE {<<"loc", <<5, -6, 7>>>>, <<"normal", <<4, 0, -4>>>>, <<"obs", <<9>>>>, <<"color", <<1, 2, 3>>>>}
Ty(h) == IF h = "x" THEN "d" ELSE "f"
Init == s = [objs |-> [h \in H |-> Obj(Kind, Ty(h), Default(Kind))], cfg |-> <<>>] /\ hist = <<>>
Texts(v) == [i \in 1..Len(v) |-> ToString(v[i])]
\* expected observations are what the step leads to: only the resulting state is used
Do(e, o) == s' = Step(s, e).st /\ hist' = Append(hist, o)
E0 == [op |-> "", h |-> "", g |-> "", k |-> Kind, t |-> "", at |-> "", a |-> <<>>, o |-> <<>>, c |-> <<>>, base |-> <<>>, cbase |-> <<>>]
Next == Len(hist) < MaxOps /\ \E h, g \in H :
          \/ g = "x" /\ \E p \in Sets : Do([E0 EXCEPT !.op = "set", !.h = h, !.at = p[1], !.a = p[2]], <<"set", h, p[1]>> \o Texts(p[2]))
          \/ g = "x" /\ Do([E0 EXCEPT !.op = "covar", !.h = h, !.a = Cov], <<"covar", h>> \o Texts(Cov))
          \/ h # g /\ Do([E0 EXCEPT !.op = "conv", !.h = h, !.g = g, !.t = Ty(h)], <<"conv", h, g, Ty(h)>>)
          \/ h # g /\ Do([E0 EXCEPT !.op = "text", !.h = h, !.g = g], <<"text", h, g, "own">>)
Spec == Init /\ [][Next]_<<s, hist>>
Last(q) == q[Len(q)]
Independent == [][\A h \in H : Last(hist')[2] # h => s'.objs[h] = s.objs[h]]_<<s, hist>>
Keeps == [][LET o == Last(hist') IN /\ o[1] = "conv" => s'.objs[o[2]].o = s.objs[o[3]].o /\ s'.objs[o[2]].c = s.objs[o[3]].c
                                   /\ o[1] = "text" => s'.objs[o[2]].o = s.objs[o[3]].o /\ s'.objs[o[2]].c = s.objs[o[2]].c]_<<s, hist>>
ASSUME QText(-5) = "-1.25" /\ QText(8) = "2" /\ QText(3) = "0.75"
ASSUME TsOf(" 12 -3").ok /\ TsOf("12 -3").f = "-3" /\ ~TsOf("12").ok /\ ~TsOf("").ok /\ ~TsOf("x 1").ok /\ ~TsOf("1 x").ok
ASSUME TsOf("9223372036854775807 -9223372036854775808").ok /\ ~TsOf("9223372036854775808 1").ok
Script(q) == << <<"new", "x", Kind, "d">>, <<"new", "y", Kind, "f">> >> \o q \o << <<"show", "x">>, <<"show", "y">> >>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(hist') = MaxOps THEN CSVWrite("%1$s", <<ToJson(Script(hist'))>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
