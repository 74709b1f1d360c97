------------------------------ MODULE MCRegex ------------------------------
(* C41: patterns grown character by character; for every short text the      *)
(* ordered matcher agrees with the language.                                 *)
EXTENDS Regex, Json, CSV, IOUtils
CONSTANTS MaxLen, MaxText, Alphabet
VARIABLES p
Init == p = ""
Next == Len(p) < MaxLen /\ \E i \in 1..Len(Alphabet) : p' = p \o Ch(Alphabet, i)
Spec == Init /\ [][Next]_p
RECURSIVE Words(_)
Words(n) == IF n = 0 THEN {""} ELSE LET S == Words(n - 1) IN S \cup {x \o c : x \in {y \in S : Len(y) = n - 1}, c \in {"a", "b"}}
Sample == Words(MaxText)
R == Read(p)
Right == R.ok => \A t \in Sample :
  LET r == Search(R.x, t, 1)
  IN /\ (r[1] = 0) = (\A i \in 1..(Len(t) + 1) : \A j \in i..(Len(t) + 1) : ~In(R.x, t, i, j))
     /\ r[1] > 0 => /\ In(R.x, t, r[1], r[2])
                    /\ \A i \in 1..(r[1] - 1) : \A j \in i..(Len(t) + 1) : ~In(R.x, t, i, j)
                    /\ \A n \in 1..MaxGroups : r[3][n] = <<0, 0>> \/ (n <= R.n /\ r[1] <= r[3][n][1] /\ r[3][n][1] <= r[3][n][2] /\ r[3][n][2] <= r[2])
\* the ends in order of preference are the ends there are
Complete == R.ok => \A t \in Sample : LET q == Ends(R.x, t, <<1, NoCaps>>) IN {q[m][1] : m \in 1..Len(q)} = {j \in 1..(Len(t) + 1) : In(R.x, t, 1, j)}
\* what is written with + is the repetition after one; the repetition accepts nothing
Width == R.ok /\ R.w => \A t \in Sample : ~In(R.x, t, 1, 1)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
TextSeq == SeqOf(Sample)
ScriptOf(q) == <<<<"comp", "r", q, "ctor">>>> \o (IF Read(q).ok THEN [i \in 1..Len(TextSeq) |-> <<"find", "r", TextSeq[i]>>] ELSE <<<<"find", "r", "a">>>>)
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson(ScriptOf(p'))>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
