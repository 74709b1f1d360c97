----------------------------- MODULE MCRegistry -----------------------------
(* C18: every short history of registrations, creations and configurations.  *)
(* C19 (MCRegistry_nest.cfg): every small configuration over nested slots,   *)
(* for every subset of the implementations being registered.                 *)
EXTENDS Registry, Json, CSV, IOUtils
CONSTANTS MaxOps, Nest
VARIABLES s, hist
vars == <<s, hist>>
P(t, n, id, slots) == [type |-> t, impl |-> n, id |-> id, descr |-> IF id % 2 = 0 THEN "" ELSE "d" \o ToString(id), p |-> "p" \o ToString(id), slots |-> Slots(slots), order |-> [i \in 1..Len(slots) |-> slots[i][1]]]
Reg(x, a) == [x EXCEPT !.reg[a.type] = (a.impl :> a) @@ @]
InSlot == << <<"in", "t1">> >>
\* histories
RegOps == {<<"register", t, n, sl>> : t \in Types, n \in {"a", "b"}, sl \in {<<>>, InSlot}}
Ops == RegOps \cup {<<"create", h, t, n>> : h \in {"x"}, t \in Types, n \in {"a", "b", "c"}} \cup {<<"clone", "y", "x">> : q \in {h \in {"x"} : h \in DOMAIN s.inst /\ s.inst[h] # NoAlgo}}
       \cup {<<"configure", "x">> : q \in {h \in {"x"} : h \in DOMAIN s.inst /\ s.inst[h] # NoAlgo}}
Cfg == ("p" :> "v") @@ ("in:type" :> "a") @@ ("in:a:p" :> "w")
Do(o) == CASE o[1] = "register" -> s' = Reg(s, P(o[2], o[3], Len(hist) + 1, o[4]))
           [] o[1] = "create" -> s' = [s EXCEPT !.inst = (o[2] :> IF RegImpl(s, o[3], o[4]) THEN s.reg[o[3]][o[4]] ELSE NoAlgo) @@ @]
           [] o[1] = "clone" -> s' = [s EXCEPT !.inst = (o[2] :> s.inst[o[3]]) @@ @]
           [] o[1] = "configure" -> s' = [s EXCEPT !.inst[o[2]] = Configured(s.reg, @, Cfg)]
\* nested configurations
Protos3 == {P("t1", "leaf", 1, <<>>), P("t1", "one", 2, InSlot), P("t2", "leaf", 3, << <<"in", "t2">>, <<"k", "t1">> >>)}
Keys == <<"n:type", "n:leaf:p", "n:one:p", "n:one:in:type", "n:one:in:leaf:p", "n:leaf:k:type", "in:type", "n:typ", "nn:type">>
Vals(k) == CASE k = "n:type" -> {"leaf", "one", "nope", ""} [] k = "n:one:in:type" -> {"leaf", "one", "none"} [] k = "n:leaf:k:type" -> {"leaf"} [] k \in {"in:type", "nn:type", "n:typ"} -> {"leaf"} [] OTHER -> {"v", "bad"}
Confs == LET F[i \in 0..Len(Keys)] == IF i = 0 THEN {<<>>} ELSE F[i - 1] \cup {(Keys[i] :> v) @@ c : v \in Vals(Keys[i]), c \in {c \in F[i - 1] : Cardinality(DOMAIN c) < MaxOps}} IN F[Len(Keys)]
RECURSIVE RegAll(_, _)
RegAll(x, S) == IF S = {} THEN x ELSE LET a == CHOOSE a \in S : \A b \in S : a.id <= b.id IN RegAll(Reg(x, a), S \ {a})
Init == /\ hist = <<>>
        /\ IF Nest THEN s \in {[RegAll(RInit, S) EXCEPT !.cfg = ("c" :> c)] : S \in SUBSET Protos3, c \in Confs} ELSE s = RInit
Next == ~Nest /\ Len(hist) < MaxOps /\ \E o \in Ops : Do(o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars

Flat(q) == LET RECURSIVE F(_) F(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o F(Tail(x)) IN F(q)
RegLine(a) == <<"register", a.type, a.impl, ToString(a.id), a.descr, a.p>> \o Flat([i \in 1..Len(a.order) |-> <<a.order[i], a.slots[a.order[i]].type>>])
RECURSIVE PairsOf(_, _)
PairsOf(c, S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN <<k, c[k]>> \o PairsOf(c, S \ {k})
ConfLine(k, c) == <<"conf", k>> \o PairsOf(c, DOMAIN c)
Line(o, i) == CASE o[1] = "register" -> <<RegLine(P(o[2], o[3], i, o[4]))>>
                [] o[1] = "create" -> <<o \o <<IF i % 2 = 0 THEN "typed" ELSE "base">> >>
                [] o[1] = "clone" -> <<o \o <<"base">> >>
                [] o[1] = "configure" -> <<ConfLine("c", Cfg), <<"configure", "x", "c">> >>
HistScript(h) == Flat([i \in 1..Len(h) |-> Line(h[i], i)]) \o << <<"names", "">>, <<"names", "t1">>, <<"names", "t2">>, <<"names", "t3">> >>
                 \o Flat([i \in 1..3 |-> << <<"has", "t1", <<"a", "b", "c">>[i]>>, <<"has", "t2", <<"a", "b", "c">>[i]>>, <<"create", "z", "t1", <<"a", "b", "c">>[i], "base">>, <<"create", "z", "t2", <<"a", "b", "c">>[i], "typed">> >>])
                 \o << <<"impls", "t1">>, <<"impls", "t2">>, <<"nothing", "t1">>, <<"names", "">> >>
                 \o (IF "x" \in DOMAIN s'.inst THEN << <<"show", "x">> >> ELSE <<>>) \o (IF "y" \in DOMAIN s'.inst THEN << <<"show", "y">> >> ELSE <<>>)
RegLines == Flat([i \in 1..3 |-> Flat([j \in 1..1 |-> LET S == {a \in Protos3 : a.id = i /\ Has(s.reg[a.type], a.impl)} IN IF S = {} THEN <<>> ELSE <<RegLine(CHOOSE a \in S : TRUE)>>])])
NScript == RegLines \o <<ConfLine("c", s.cfg["c"]), <<"conf", "e">>, <<"create", "x", "t1", "leaf", "base">>, <<"create", "y", "t2", "nope", "base">>,
             <<"ncheck", "t1", "n", "c", "base">>, <<"ncheck", "t2", "n", "c", "typed">>, <<"nset", "x", "t1", "n", "c", "typed">>, <<"nset", "y", "t2", "n", "c", "base">>,
             <<"nget", "x", "t1", "n", "e", "base">>, <<"create", "z", "t1", "nope", "typed">>, <<"nset", "z", "t1", "n", "e", "base">>, <<"show", "z">>,
             <<"ncheck", "t1", "n", "e", "base">>, <<"nget", "y", "t2", "m", "e", "typed">>, <<"ncheck", "t2", "m", "e", "base">>,
             <<"create", "w", "t1", "leaf", "typed">>, <<"show", "x">>, <<"show", "y">> >>
WriteHist == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(hist') = MaxOps THEN CSVWrite("%1$s", <<ToJson(HistScript(hist'))>>, IOEnv.SCRIPTS) ELSE TRUE
WriteNest == IF "SCRIPTS" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson(NScript)>>, IOEnv.SCRIPTS) ELSE TRUE

\* C18
LatestWins == [][LET o == hist'[Len(hist')] IN
    /\ o[1] = "register" => /\ s'.reg[o[2]][o[3]].id = Len(hist')
                            /\ \A t \in Types : \A n \in Names(s, t) : (t # o[2] \/ n # o[3]) => s'.reg[t][n] = s.reg[t][n]
    /\ o[1] # "register" => s'.reg = s.reg
    /\ \A h \in DOMAIN s.inst : (o[1] = "register" \/ h # o[2]) => s'.inst[h] = s.inst[h]]_vars
\* C19
C == s.cfg["c"]
Slot(a, n) == a.slots[n].algo
\* a checked configuration yields an algorithm all of whose slots are filled
RECURSIVE Complete(_)
Complete(a) == a # NoAlgo /\ \A n \in DOMAIN a.slots : Complete(Slot(a, n))
CheckedMeansComplete == \A t \in Types : NestCheck(s.reg, t, "n", C) => Complete(NestSet(s.reg, t, "n", C, NoAlgo))
Reproduces == \A t \in Types : LET a == NestSet(s.reg, t, "n", C, NoAlgo) IN
                 a # NoAlgo => NestSet(s.reg, t, "n", NestGet("n", <<>>, a), NoAlgo) = a
UntouchedOrNamed == \A t \in Types : LET a == NestSet(s.reg, t, "n", C, [NoAlgo EXCEPT !.impl = "old"]) IN
                      IF Has(C, "n:type") /\ RegImpl(s, t, C["n:type"]) THEN a.impl = C["n:type"] /\ a.type = t ELSE a.impl = "old"
GivenOwn == \A t \in Types : LET g == Given(s.reg, t, "n", C) IN g # <<>> => g[1].c = Under(C, "n:" \o C["n:type"])
=============================================================================
