---------------------------- MODULE MCConfigFile ----------------------------
(* Every configuration file over a small alphabet of lines, up to a length:  *)
(* the listed properties are checked on the specification's reading of it,   *)
(* and every file is handed to the implementation.                           *)
EXTENDS ConfigFile, Json, CSV, IOUtils
CONSTANTS Alphabet, MaxLines
VARIABLE main

Plain == << "xx = 1", "  b:xx=  2 2 # c", "block b", "endblock", "xx [RO] = 3", "include i.cfg", "relativepath p = f",
            "mm := <$LOCAL{mm}>", "xx = $CONFIG{b:xx}|$LOCAL{mm}", "#only" >>
Broken == << "xx = 1", "block b", "endblock", "include i.cfg", "block", "yy", "= endblock", "kk [XX] = 1", "xx [ro]=", "include none", "k! = 1", "", "include j.cfg" >>
Macro == << "aa = $LOCAL{bb}$ENV{VV}", "bb := $CONFIG{aa}.", "cc = $NO{aa}$$LOCAL{bb}}", "aa = ${x}$LOCAL{", "bb = $CONFIG{bb}$CONFIG{cc}", "bb := $ENV{VV}{aa}", "cc := $LOCAL{}$LOCAL{c}c" >>
Alpha_ == CASE Alphabet = "plain" -> Plain [] Alphabet = "broken" -> Broken [] Alphabet = "macro" -> Macro

IncI == <<"xx = inc", "endblock", "block c", "xx = $LOCAL{mm}">>
IncJ == <<"yy = 1", "what is this">>
FS(m) == [FInit EXCEPT !.files = ("@/m.cfg" :> m) @@ ("@/i.cfg" :> IncI) @@ ("@/j.cfg" :> IncJ), !.env = "VV" :> "$LOCAL{bb}"]

Init == main = <<>>
Next == Len(main) < MaxLines /\ \E i \in 1..Len(Alpha_) : main' = Append(main, Alpha_[i])
Spec == Init /\ [][Next]_main
R(m) == Read(FS(m), "@/m.cfg", <<>>)
Script(m) == << <<"env", "VV", "$LOCAL{bb}">>, <<"file", "@/m.cfg", "\n", "1">> \o m, <<"file", "@/i.cfg", "\n", "1">> \o IncI,
                <<"file", "@/j.cfg", "\n", "0">> \o IncJ, <<"read", "@/m.cfg", "">> >>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson(Script(main'))>>, IOEnv.SCRIPTS) ELSE TRUE

-----------------------------------------------------------------------------
(* C06: an include acts as its lines in its place *)
RECURSIVE Inline(_)
Inline(m) == IF m = <<>> THEN <<>>
             ELSE (IF Head(m) = "include i.cfg" THEN IncI ELSE IF Head(m) = "include j.cfg" THEN IncJ ELSE <<Head(m)>>) \o Inline(Tail(m))
IncludeIsInline == LET a == R(main)  b == R(Inline(main)) IN KV(a.cfg) = KV(b.cfg) /\ (a.out = {"ok"}) = (b.out = {"ok"})
\* C06: keys carry the names of the open blocks, the last assignment wins: stated over positions
Cls == [i \in 1..Len(main) |-> Classify(main[i])]
Depth(i) == Cardinality({j \in 1..i : Cls[j].t = "block"}) - Cardinality({j \in 1..i : Cls[j].t = "endblock"})
\* the block directives open at line i: those never closed again before i
OpenAt(i) == {j \in 1..(i - 1) : Cls[j].t = "block" /\ \A k \in j..(i - 1) : Depth(k) >= Depth(j)}
RECURSIVE CtxOf(_)
CtxOf(S) == IF S = {} THEN "" ELSE LET j == CHOOSE x \in S : \A y \in S : x <= y IN Cls[j].n \o ":" \o CtxOf(S \ {j})
FullKey(i) == CtxOf(OpenAt(i)) \o Cls[i].key
Entries == {i \in 1..Len(main) : Cls[i].t = "entry"}
Simple == \A i \in 1..Len(main) : Cls[i].t # "include"
LastWins == (Simple /\ R(main).out = {"ok"}) =>
   LET c == R(main).cfg
   IN /\ DOMAIN c = {FullKey(i) : i \in Entries}
      /\ \A k \in DOMAIN c : c[k].line = CHOOSE i \in Entries : FullKey(i) = k /\ \A j \in Entries : FullKey(j) = k => j <= i
-----------------------------------------------------------------------------
(* C08 *)
BadRejected == (\E i \in 1..Len(main) : Cls[i].t = "bad" \/ (Cls[i].t \in {"entry", "local"} /\ Cls[i].bad)) => "ok" \notin R(main).out
Balanced == Depth(Len(main)) = 0 /\ \A i \in 1..Len(main) : Depth(i) >= 0
UnbalancedRejected == (Simple /\ ~Balanced) => "ok" \notin R(main).out
RoOnce == \A i, j \in Entries : (i < j /\ Cls[i].ro) => FullKey(i) # FullKey(j)
GoodAccepted == (Simple /\ Balanced /\ RoOnce /\ \A i \in 1..Len(main) : Cls[i].t # "bad" /\ (Cls[i].t \in {"entry", "local"} => ~Cls[i].bad))
                  => R(main).out = {"ok"}
NothingOnError == R(main).out # {"ok"} => R(main).cfg = <<>>
-----------------------------------------------------------------------------
(* C07: text without references is untouched; expansion is compositional *)
HasRef(t) == \E i \in 1..Len(t) : MacroAt(From(t, i)).n > 0
P0 == [PInit(<<>>) EXCEPT !.syms = "bb" :> "$LOCAL{bb}", !.cfg = "aa" :> [v |-> "A", ro |-> FALSE, file |-> "f", line |-> 1]]
ExpandLaws == \A i \in 1..Len(main) : LET t == main[i] IN
   /\ ~HasRef(t) => Expand(FS(main), P0, t) = t
   /\ \A k \in 0..Len(t) : (\A j \in 1..k : MacroAt(From(t, j)).n + j - 1 <= k) =>
         Expand(FS(main), P0, t) = Expand(FS(main), P0, UpTo(t, k)) \o Expand(FS(main), P0, From(t, k + 1))
=============================================================================
