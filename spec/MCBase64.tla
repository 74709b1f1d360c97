------------------------------ MODULE MCBase64 ------------------------------
(* C40: the encoding is the published one, the regrouping of the bits from   *)
(* eights to sixes, and decoding undoes it.  A run of the encoder and the    *)
(* decoder, group by group, over all short byte strings.                     *)
EXTENDS Base64, Json, CSV, IOUtils
CONSTANTS MaxLen, Bytes
VARIABLES q, mark, text, back, done
Bit(n, i) == (n \div (2 ^ i)) % 2
Bits(b) == [i \in 1..8 * Len(b) |-> Bit(b[((i - 1) \div 8) + 1], 7 - ((i - 1) % 8))]
Padded(b) == LET x == Bits(b)
                 n == ((Len(x) + 5) \div 6) * 6
             IN [i \in 1..n |-> IF i <= Len(x) THEN x[i] ELSE 0]
Six(x, i) == x[i + 1] * 32 + x[i + 2] * 16 + x[i + 3] * 8 + x[i + 4] * 4 + x[i + 5] * 2 + x[i + 6]
RECURSIVE Chars6(_, _)
Chars6(x, i) == IF i >= Len(x) THEN "" ELSE Sym(Six(x, i)) \o Chars6(x, i + 6)
Published(b) == LET t == Chars6(Padded(b), 0) IN t \o (CASE Len(t) % 4 = 2 -> "==" [] Len(t) % 4 = 3 -> "=" [] OTHER -> "")
Seqs == UNION {[1..n -> Bytes] : n \in 0..MaxLen}
Init == q \in Seqs /\ mark \in BOOLEAN /\ text = "" /\ back = <<>> /\ done = FALSE
Next == ~done /\ UNCHANGED <<q, mark>> /\
        IF text = "" THEN text' = Marked(q, mark) /\ done' = (Marked(q, mark) = "") /\ back' = back
        ELSE LET g == Group(SubSeq(text, (Len(back) \div 3) * 4 + 1, (Len(back) \div 3) * 4 + 4))
             IN back' = back \o g /\ text' = text /\ done' = (Len(g) < 3 \/ ((Len(back) + 3) \div 3) * 4 >= Len(text))
Spec == Init /\ [][Next]_<<q, mark, text, back, done>> /\ WF_<<q, mark, text, back, done>>(Next)
Undone == done => back = q
Std == text # "" => text = Published(q) \o (IF mark /\ Len(q) % 3 = 0 THEN "====" ELSE "")
Ends == <>done
ASSUME \A a \in 0..255 : Decode(Encode(<<a>>), 9) = <<a>>
ASSUME Encode(<<77, 97, 110>>) = "TWFu" /\ Encode(<<77, 97>>) = "TWE=" /\ Encode(<<77>>) = "TQ=="
Script == << <<"enc", IF mark THEN "1" ELSE "0">> \o [i \in 1..Len(q) |-> ToString(q[i])], <<"round", IF mark THEN "1" ELSE "0">> \o [i \in 1..Len(q) |-> ToString(q[i])] >>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ done' THEN CSVWrite("%1$s", <<ToJson(Script)>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
