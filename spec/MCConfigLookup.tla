--------------------------- MODULE MCConfigLookup ---------------------------
(* Every subset of the candidate directories of an application               *)
(* configuration file, for several settings of the variables.                *)
EXTENDS ConfigFile, SequencesExt, Json, CSV, IOUtils
VARIABLES present, set, done
Settings == { [ver |-> v, prefix |-> p, home |-> h, kw |-> k] :
                v \in {"", "2"}, p \in {"", "@/i"}, h \in {"", "@/h"}, k \in {"", "@/k1:@/k2"} }
App == "vvapp"
Base(x) == LET s0 == [FInit EXCEPT !.env = ("HOME" :> x.home) @@ ("KWIVER_CONFIG_PATH" :> x.kw)]
           IN s0
Scratch(x) == SelectSeq(ConfigPaths(Base(x), App, x.ver, x.prefix) \o <<"@">>, LAMBDA p : Ch(p, 1) = "@")
\* the file in directory number i assigns "all", its own key, and one shared with the next one
Body(i) == << "all = " \o ToString(i), "own" \o ToString(i) \o " = x", "pair" \o ToString(i \div 2) \o " = " \o ToString(i) >>
Files(x, S) == [i \in S |-> Scratch(x)[i] \o "/c.cfg"]
FS(x, S) == [Base(x) EXCEPT !.files = [p \in {Files(x, S)[i] : i \in S} |-> Body(CHOOSE i \in S : Files(x, S)[i] = p)]]
Init == set \in Settings /\ present = {} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ set' = set /\ present' \in SUBSET (1..Len(Scratch(set)))
Spec == Init /\ [][Next]_<<present, set, done>>
L(merge) == AppLookup(FS(set, present), "c.cfg", App, set.ver, set.prefix, merge)
Script(x, S) == << <<"env", "HOME", x.home>>, <<"env", "KWIVER_CONFIG_PATH", x.kw>> >>
                \o [i \in 1..Cardinality(S) |-> LET q == SetToSortSeq(S, LAMBDA a, b : a < b)
                                               IN <<"file", Files(x, S)[q[i]], "\n", "1">> \o Body(q[i])]
                \o << <<"paths", App, x.ver, x.prefix>>, <<"lookup", "c.cfg", App, x.ver, x.prefix, "0">>, <<"lookup", "c.cfg", App, x.ver, x.prefix, "1">> >>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson(Script(set', present'))>>, IOEnv.SCRIPTS) ELSE TRUE
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
\* C10
FirstFile == done => IF present = {} THEN L(FALSE).out = {"!not_found"} /\ L(TRUE).out = {"!not_found"}
                     ELSE <<"all", ToString(Least(present))>> \in L(FALSE).kv /\ Cardinality(L(FALSE).kv) = 3
Merged == (done /\ present # {}) =>
     LET kv == L(TRUE).kv IN
     /\ <<"all", ToString(Least(present))>> \in kv
     /\ \A i \in present : <<"own" \o ToString(i), "x">> \in kv
     /\ \A i \in present : <<"pair" \o ToString(i \div 2), ToString(Least({j \in present : j \div 2 = i \div 2}))>> \in kv
     /\ \A a, b \in kv : a[1] = b[1] => a = b
     /\ Cardinality(kv) = 1 + Cardinality(present) + Cardinality({i \div 2 : i \in present})
=============================================================================
