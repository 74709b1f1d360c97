------------------------------ MODULE StrUtil ------------------------------
(* Character-level operators on TLC strings.  A "character" is a string of   *)
(* length one.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ch(s, i) == SubSeq(s, i, i)
From(s, i) == SubSeq(s, i, Len(s))
UpTo(s, i) == SubSeq(s, 1, i)
Chars(s) == [i \in 1..Len(s) |-> Ch(s, i)]

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p

Blank == {" ", "\t", "\n", "\r", "\f"} 

RECURSIVE LTrimFrom(_, _)
LTrimFrom(s, i) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \in Blank THEN LTrimFrom(s, i + 1) ELSE i
RECURSIVE RTrimFrom(_, _)
RTrimFrom(s, i) == IF i < 1 THEN i ELSE IF Ch(s, i) \in Blank THEN RTrimFrom(s, i - 1) ELSE i
Trim(s) == LET a == LTrimFrom(s, 1)
               b == RTrimFrom(s, Len(s))
           IN IF a > b THEN "" ELSE SubSeq(s, a, b)

\* first position >= i whose character is in set C (Len+1 if none)
RECURSIVE FindIn(_, _, _)
FindIn(s, C, i) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \in C THEN i ELSE FindIn(s, C, i + 1)
\* first position >= i whose character is not in set C (Len+1 if none)
RECURSIVE SkipIn(_, _, _)
SkipIn(s, C, i) == IF i > Len(s) THEN i ELSE IF Ch(s, i) \notin C THEN i ELSE SkipIn(s, C, i + 1)
\* last position <= i whose character is in set C (0 if none)
RECURSIVE RFindIn(_, _, _)
RFindIn(s, C, i) == IF i < 1 THEN 0 ELSE IF Ch(s, i) \in C THEN i ELSE RFindIn(s, C, i - 1)

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN "" ELSE Head(ss) \o Concat(Tail(ss))

RECURSIVE JoinWith(_, _)
JoinWith(ss, sep) == IF ss = <<>> THEN "" ELSE IF Len(ss) = 1 THEN ss[1] ELSE Head(ss) \o sep \o JoinWith(Tail(ss), sep)

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower == {LowerSeq[i] : i \in 1..26}
Upper == {UpperSeq[i] : i \in 1..26}
Alpha == Lower \cup Upper
ToLowerMap == [c \in Upper |-> LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]]
ToLowerCh(c) == IF c \in Upper THEN ToLowerMap[c] ELSE c
ToUpperMap == [c \in Lower |-> UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c]]
RECURSIVE LowerStr(_)
LowerStr(s) == IF s = "" THEN "" ELSE ToLowerCh(Ch(s, 1)) \o LowerStr(From(s, 2))
RECURSIVE UpperStr(_)
UpperStr(s) == IF s = "" THEN "" ELSE LET c == Ch(s, 1) IN (IF c \in Lower THEN ToUpperMap[c] ELSE c) \o UpperStr(From(s, 2))

DigitVal == [c \in Digits |-> CHOOSE v \in 0..9 : ToString(v) = c]

RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ Ch(d, 1) = "0" THEN StripZeros(From(d, 2)) ELSE d

\* compare digit strings without leading zeros: a <= b
RECURSIVE LexLE(_, _)
LexLE(a, b) == IF a = "" THEN TRUE
               ELSE IF Ch(a, 1) = Ch(b, 1) THEN LexLE(From(a, 2), From(b, 2))
               ELSE DigitVal[Ch(a, 1)] < DigitVal[Ch(b, 1)]
DigLE(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLE(a, b))

RECURSIVE ToIntD(_, _)
ToIntD(d, acc) == IF d = "" THEN acc ELSE ToIntD(From(d, 2), acc * 10 + DigitVal[Ch(d, 1)])
\* value of a short decimal string with optional minus sign
StrToInt(s) == IF Len(s) > 0 /\ Ch(s, 1) = "-" THEN -ToIntD(From(s, 2), 0) ELSE ToIntD(s, 0)

SeqToSet(q) == {q[i] : i \in 1..Len(q)}
NoDup(q) == Cardinality(SeqToSet(q)) = Len(q)
============================================================================
