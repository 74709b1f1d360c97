------------------------------ MODULE MCTokens ------------------------------
(* C28: the scan for the next delimiter yields the split, and ends, for      *)
(* every string over two delimiters and two other characters.                *)
EXTENDS Tokens, Json, CSV, IOUtils
CONSTANTS MaxLen
VARIABLES q, d, trim, last, out, done
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {""} ELSE LET S == Strings(n - 1) IN S \cup {x \o c : x \in {y \in S : Len(y) = n - 1}, c \in {",", ";", "a", "b"}}
Init == q \in Strings(MaxLen) /\ d \in {"", ",", ";,"} /\ trim \in BOOLEAN /\ last = 1 /\ out = <<>> /\ done = FALSE
Next == ~done /\ LET i == FindIn(q, Set(d), last) IN
        /\ out' = (IF i # last \/ ~trim THEN Append(out, SubSeq(q, last, i - 1)) ELSE out)
        /\ IF i > Len(q) THEN done' = TRUE /\ last' = last ELSE done' = FALSE /\ last' = i + 1
        /\ UNCHANGED <<q, d, trim>>
Spec == Init /\ [][Next]_<<q, d, trim, last, out, done>> /\ WF_<<q, d, trim, last, out, done>>(Next)
Right == done => out = Tokenized(q, d, trim)
Ends == <>done
\* nothing is lost or invented: with one delimiter the elements joined are the string
ASSUME \A x \in Strings(4) : JoinWith(Split(x, {","}), ",") = x
ASSUME \A x \in Strings(4) : \A i \in 1..Len(Split(x, {",", ";"})) : FindIn(Split(x, {",", ";"})[i], {",", ";"}, 1) > Len(Split(x, {",", ";"})[i])
Script == << <<"tok", "v", "vector", q, d, IF trim THEN "1" ELSE "0">>, <<"tok", "v", "vector", "x,y", ",", "0">> >>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ done' THEN CSVWrite("%1$s", <<ToJson(Script)>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
