----------------------------- MODULE MCHandles -----------------------------
(* Handles kept in caches of counted shared pointers, as the C interface does *)
(* it: a cache for all objects and one per type.  Cameras can be put in a map *)
(* and are handed out again when the map is asked for its cameras.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, CSV, IOUtils
CONSTANTS MaxOps, Cams,
          Check,    \* destroying verifies the type of the object first
          Count,    \* handing out again is counted
          Last      \* an entry stays until its count is zero
VARIABLES made, owed, gen, typ, inside, freed, hist
vars == <<made, owed, gen, typ, inside, freed, hist>>
Maps == {"m"}
Objs == Cams \cup Maps
Type(o) == IF o \in Cams THEN "cam" ELSE "map"
Init == made = {} /\ owed = [o \in Objs |-> 0] /\ gen = owed /\ typ = owed /\ inside = {} /\ freed = {} /\ hist = <<>>
\* what the caches and the containers keep alive
Kept(g, t, mk) == LET c == {o \in mk : g[o] > 0 \/ t[o] > 0} IN c \cup (IF "m" \in c THEN inside ELSE {})
Store(f, o) == [f EXCEPT ![o] = IF @ = 0 \/ Count THEN @ + 1 ELSE @]
Erase(f, o) == [f EXCEPT ![o] = IF @ = 0 THEN 0 ELSE IF Last THEN @ - 1 ELSE 0]
Usable(o) == o \in made /\ typ[o] > 0
Free == freed' = made' \ (LET c == {o \in made' : gen'[o] > 0 \/ typ'[o] > 0} IN c \cup (IF "m" \in c THEN inside' ELSE {}))
Say(x) == hist' = Append(hist, x)
Read(k) == /\ k \notin made /\ made' = made \cup {k} /\ owed' = [owed EXCEPT ![k] = 1] /\ gen' = Store(gen, k) /\ typ' = Store(typ, k)
           /\ UNCHANGED inside /\ Free /\ Say(<<"read", k>>)
NewMap(S) == /\ "m" \notin made /\ \A k \in S : Usable(k)
             /\ made' = made \cup {"m"} /\ owed' = [owed EXCEPT !["m"] = 1] /\ gen' = Store(gen, "m") /\ typ' = Store(typ, "m")
             /\ inside' = S /\ Free /\ Say(<<"map", S>>)
GetMap == /\ Usable("m") /\ owed' = [o \in Objs |-> owed[o] + (IF o \in inside THEN 1 ELSE 0)]
          /\ gen' = [o \in Objs |-> IF o \in inside THEN Store(gen, o)[o] ELSE gen[o]]
          /\ typ' = [o \in Objs |-> IF o \in inside THEN Store(typ, o)[o] ELSE typ[o]]
          /\ UNCHANGED <<made, inside>> /\ Free /\ Say(<<"get">>)
\* released through the function of type t, whatever the object is
Destroy(o, t) == /\ o \in made
                 /\ owed' = [owed EXCEPT ![o] = IF t = Type(o) /\ @ > 0 THEN @ - 1 ELSE @]
                 /\ IF Check /\ ~(t = Type(o) /\ typ[o] > 0) THEN UNCHANGED <<gen, typ>>
                    ELSE gen' = Erase(gen, o) /\ typ' = (IF t = Type(o) THEN Erase(typ, o) ELSE typ)
                 /\ UNCHANGED <<made, inside>> /\ Free /\ Say(<<"destroy", o, t>>)
Next == /\ Len(hist) < MaxOps
        /\ \/ \E k \in Cams : Read(k)
           \/ \E S \in SUBSET Cams : NewMap(S)
           \/ GetMap
           \/ \E o \in Objs, t \in {"cam", "map"} : Destroy(o, t)
Spec == Init /\ [][Next]_vars
\* usable exactly while releases are owed; freed exactly when nobody can get at the object any more
UsableIffOwed == \A o \in made : (owed[o] > 0) = Usable(o) /\ (typ[o] > 0) = (gen[o] > 0)
FreedIffUnreachable == \A o \in made : (o \in freed) = (owed[o] = 0 /\ ~(o \in inside /\ owed["m"] > 0))
StaysFreed == [][freed \subseteq freed']_vars
SetSeq(S) == LET RECURSIVE F(_) F(x) == IF x = {} THEN <<>> ELSE LET y == CHOOSE y \in x : TRUE IN <<y>> \o F(x \ {y}) IN F(S)
Flat(q) == LET RECURSIVE F(_) F(x) == IF x = <<>> THEN <<>> ELSE Head(x) \o F(Tail(x)) IN F(q)
Lines(i) == LET o == hist'[i] IN
  CASE o[1] = "read" -> << <<"kread", o[2], "1.cam", "e">> >>
    [] o[1] = "map" -> << <<"mnew", "m">> \o Flat([j \in 1..Cardinality(o[2]) |-> <<SetSeq(o[2])[j], ToString(j)>>]) >>
    [] o[1] = "get" -> << <<"mmap", "m", "g" \o ToString(i) \o "_", "e">> >>
    [] o[1] = "destroy" -> << IF o[3] = "cam" THEN <<"kdestroy", o[2], "e">> ELSE <<"mdestroy", o[2], "e">> >>
Script == << <<"mkfile", "1.cam", "cam", "10">> >> \o Flat([i \in 1..Len(hist') |-> Lines(i) \o << <<"kwrite", "k1", "2.cam", "e">>, <<"msize", "m", "e">> >>])
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ Len(hist') = MaxOps THEN CSVWrite("%1$s", <<ToJson(Script)>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
