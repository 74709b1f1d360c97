----------------------------- MODULE MCCmdLine -----------------------------
(* C33: what parsing does with every line up to MaxLen arguments, step by    *)
(* step, for one set of registered options.                                  *)
EXTENDS CmdLine, Json, CSV, IOUtils
CONSTANTS Set, MaxLen, Unk, Store, ValueCounts
VARIABLES s, p
\* sets of options: name, form, kind
Sets == [ a |-> <<<<"-a", "none", "bool">>, <<"-ab", "concat", "str">>, <<"-a=", "multi", "vstr">>, <<"--m", "multi", "vint">>>>,
          b |-> <<<<"-x", "space", "str">>, <<"-x", "equal", "call">>, <<"-xy", "space", "call">>, <<"--fail", "none", "call">>>>,
          c |-> <<<<"-e", "equal", "int">>, <<"-ee", "equal", "vdouble">>, <<"-n", "space", "vbool">>, <<"--fail", "multi", "call">>>>,
          d |-> <<<<"-", "concat", "cstr">>, <<"--", "none", "call">>, <<"--v", "multi", "call">>, <<"-s", "space", "call">>>> ]
Args == [ a |-> {"-a", "-ab", "-abc", "-a=", "--m", "3", "b"}, b |-> {"-x", "-x=1", "-xy", "no", "1", "--fail"},
          c |-> {"-e", "-e=5", "-ee=2.50", "-n", "yes", "--fail", "--fai"}, d |-> {"-", "-q", "--", "--v", "-s", "no", "1"} ]
Regs == [i \in DOMAIN Sets[Set] |-> [op |-> "reg", name |-> Sets[Set][i][1], form |-> Sets[Set][i][2], kind |-> Sets[Set][i][3], help |-> "h"]]
RECURSIVE Register(_, _)
Register(t, i) == IF i > Len(Regs) THEN t ELSE Register(Step(t, Regs[i]).st, i + 1)
Empty == [Register(SInit, 1) EXCEPT !.unk = Unk, !.store = Store]
Init == s = Empty /\ p = PInit(Empty)
\* an argument that begins with the name of an option that takes several values, but is longer, is left open
Open(a) == LET F == Fitting(s.opts, a) IN F # {} /\ s.opts[Longest(F)].form = "multi" /\ a # Longest(F)
Add == p.i = 1 /\ p.tags = <<>> /\ p.ok /\ Len(s.line) < MaxLen /\ \E a \in Args[Set] : ~Open(a) /\ s' = [s EXCEPT !.line = Append(@, a)] /\ p' = PInit(s')
Parse == ~p.done /\ p' = One(s, p) /\ UNCHANGED s
Next == Add \/ Parse
Spec == Init /\ [][Next]_<<s, p>>
Arg == {k \in 1..p.last : p.tags[k] # "val"}
Count(t) == Cardinality({k \in DOMAIN p.tags : p.tags[k] = t})
\* every consumed argument has one use; the rest remains
Accounted == IF p.ok THEN Len(p.tags) = p.last /\ (p.done => p.last = Len(s.line) \/ (p.last > 0 /\ p.tags[p.last] = "unknown"))
             ELSE p.last <= Len(p.tags) /\ p.last < Len(s.line)
\* nothing follows an unknown argument when there is a callback for them; unused arguments only when they are stored
Unknowns == /\ Count("unknown") <= 1 /\ (Count("unknown") = 1 => p.done /\ s.unk = "ok")
            /\ (Count("unused") > 0 => s.store /\ s.unk = "none") /\ p.unused = SelectSeq([k \in 1..Len(p.tags) |-> IF p.tags[k] = "unused" THEN s.line[k] ELSE "<>"], LAMBDA x : x # "<>")
\* what is given: by values among the arguments, and by options that bring it themselves
Slot(n) == s.slots[s.opts[n].slot]
Vec == {i \in DOMAIN s.slots : s.slots[i].kind \in Vectors}
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Len(p.slots[i].vals) + Sum(S \ {i})
Given == Count("val") + Count("both") + Count("option") - Cardinality({k \in DOMAIN p.tags : k < Len(p.tags) /\ p.tags[k] = "option" /\ p.tags[k + 1] = "val"})
\* the unknown argument is called back, too, and so is the value that was refused
Calls == Len(p.calls) - Count("unknown")
AllGiven == p.ok => Calls + Sum(Vec) <= Given
\* options that are not on the line keep what they had
Untouched == \A n \in DOMAIN s.opts : (\A k \in DOMAIN s.line : ~StartsWith(s.line[k], n)) => p.slots[s.opts[n].slot] = s.slots[s.opts[n].slot] /\ \A c \in DOMAIN p.calls : p.calls[c][1] # n
\* an option that was registered again is not reachable through its earlier registration
Shadowed == \A i \in DOMAIN s.slots : (\A n \in DOMAIN s.opts : s.opts[n].slot # i) => p.slots[i] = s.slots[i]
\* values in the order of the line
Texts == [k \in DOMAIN p.tags |-> s.line[k]]
Order == \A i \in Vec : Len(p.slots[i].vals) <= ValueCounts * Len(s.line)
Progress == p.done \/ p.i <= Len(s.line)
Final == p.done /\ p.ok => \A i \in DOMAIN s.slots : s.slots[i].kind \in Scalars => Len(p.slots[i].vals) = 1
ScriptOf(t) == [i \in DOMAIN Regs |-> <<"reg", Regs[i].name, Regs[i].form, Regs[i].kind, Regs[i].help>>]
  \o (IF Unk = "none" THEN <<>> ELSE <<<<"unk", Unk>>>>) \o (IF Store THEN <<<<"store">>>> ELSE <<>>)
  \o <<<<"init", "prog">> \o t.line, <<"parse">>>>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ p.tags = <<>> /\ p'.i = 1 /\ p'.ok /\ p'.tags = <<>> THEN CSVWrite("%1$s", <<ToJson(ScriptOf(s'))>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
