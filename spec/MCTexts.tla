------------------------------ MODULE MCTexts ------------------------------
(* C42: reading a command line one character at a time, reading a line of a    *)
(* stream through a buffer of Buf characters, replacing from left to right and  *)
(* cutting at separators do what the specification says of whole texts.          *)
EXTENDS Texts, Json, CSV, IOUtils
CONSTANTS Broken, MaxLen, Buf, Mode
VARIABLES text, x, pos, z, pc, lim, got
vars == <<text, x, pos, z, pc, lim, got>>
AllTexts(A) == UNION {[1..n -> A] : n \in 0..MaxLen}
Alphabet == CASE Mode = "cmd" -> {97, 32, 92, 39, 34} [] Mode = "line" -> {97, 13, 10} [] OTHER -> {97, 98}
RECURSIVE RleFrom(_, _, _)
RleFrom(t, i, q) == IF i > Len(t) THEN q ELSE RleFrom(t, i + 1, Put(q, t[i], 1))
Rle(t) == RleFrom(t, 1, <<>>)
Str(t) == Concat([i \in 1..Len(t) |-> CASE t[i] = 97 -> "a" [] t[i] = 98 -> "b" [] t[i] = 32 -> " " [] t[i] = 92 -> "\\" [] t[i] = 39 -> "'" [] t[i] = 34 -> "\"" [] OTHER -> "?"])
Zero == [esc |-> FALSE, sq |-> FALSE, dq |-> FALSE, arg |-> FALSE, cur |-> <<>>, done |-> <<>>]
Init == /\ text \in AllTexts(Alphabet) /\ pos = 1 /\ got = <<>> /\ z = Zero
        /\ lim \in (IF Mode = "line" THEN {-1, 1, 2, 4} ELSE {0})
        /\ x \in (IF Mode = "repl" THEN UNION {[1..n -> {97, 98}] : n \in 1..2} ELSE {<<>>})
        /\ pc = Mode
Same == UNCHANGED <<text, x, lim>>
\* ---- the command line, a character at a time
C == text[pos]
Char == /\ pc = "cmd" /\ pos <= Len(text) /\ pos' = pos + 1 /\ Same /\ UNCHANGED <<got, pc>>
        /\ z' = CASE z.esc -> [z EXCEPT !.esc = FALSE, !.arg = TRUE, !.cur = Put(@, C, 1)]
                  [] C = 92 -> [z EXCEPT !.esc = TRUE]
                  [] C = 39 /\ (~z.dq \/ Broken = "quotes") -> [z EXCEPT !.sq = ~@, !.arg = IF Broken = "empty" THEN @ ELSE TRUE]
                  [] C = 34 /\ ~z.sq -> [z EXCEPT !.dq = ~@, !.arg = IF Broken = "empty" THEN @ ELSE TRUE]
                  [] C = 32 /\ ~z.arg -> z
                  [] C = 32 /\ z.arg /\ ~z.sq /\ ~z.dq -> [z EXCEPT !.arg = FALSE, !.done = Append(@, z.cur), !.cur = <<>>]
                  [] OTHER -> [z EXCEPT !.arg = TRUE, !.cur = Put(@, C, 1)]
Finish == /\ pc = "cmd" /\ pos > Len(text) /\ pc' = "done" /\ Same /\ UNCHANGED <<pos, z>>
          /\ got' = IF z.arg THEN Append(z.done, z.cur) ELSE z.done
\* ---- a line, a buffer at a time: what is read ends at a newline or where the buffer is full
Chunk == LET nls == {i \in pos..Len(text) : text[i] = 10 /\ i < pos + Buf}
             i == IF nls = {} THEN 0 ELSE CHOOSE i \in nls : \A j \in nls : i <= j
             last == IF i > 0 THEN i - 1 ELSE Min(Len(text), pos + Buf - 1)
         IN [t |-> SubSeq(text, pos, last), nl |-> i > 0, next |-> IF i > 0 THEN i + 1 ELSE last + 1]
Trimmed(t) == IF t # <<>> /\ t[Len(t)] = 13 THEN SubSeq(t, 1, Len(t) - 1) ELSE t
Over(t) == IF lim >= 0 /\ Len(t) > lim THEN SubSeq(t, 1, lim - (IF Broken = "limit" THEN 1 ELSE 0)) ELSE t
Read == /\ pc = "line" /\ Same
        /\ LET c == Chunk
               part == got \o (IF Broken = "cr" THEN Trimmed(c.t) ELSE c.t)
               over == c.nl \/ c.next > Len(text)
           IN /\ pos' = c.next
              /\ got' = IF over THEN Over(Trimmed(part)) ELSE part
              /\ z' = [z EXCEPT !.arg = c.nl, !.dq = @ \/ c.t # <<>> \/ c.nl]
              /\ pc' = IF over THEN "read" ELSE "line"
\* ---- replacing: what was looked at is not looked at again
Here1 == pos + Len(x) - 1 <= Len(text) /\ SubSeq(text, pos, pos + Len(x) - 1) = x
With == x \o <<98>>
Look == /\ pc = "repl" /\ pos <= Len(text) /\ Same /\ UNCHANGED <<z, pc>>
        /\ IF Here1 THEN got' = got \o With /\ pos' = pos + (IF Broken = "overlap" THEN 1 ELSE Len(x)) ELSE got' = Append(got, text[pos]) /\ pos' = pos + 1
Looked == pc = "repl" /\ pos > Len(text) /\ pc' = "replaced" /\ Same /\ UNCHANGED <<pos, z, got>>
\* ---- cutting (98 is the separator)
Cut == /\ pc = "cut" /\ Same /\ UNCHANGED z
       /\ LET seps == {i \in pos + (IF Broken = "skip" THEN 1 ELSE 0)..Len(text) : text[i] = 98}
              i == IF seps = {} THEN Len(text) + 1 ELSE CHOOSE i \in seps : \A j \in seps : i <= j
          IN got' = Append(got, SubSeq(text, pos, i - 1)) /\ pos' = i + 1 /\ pc' = (IF seps = {} THEN "were" ELSE "cut")
Next == Char \/ Finish \/ Read \/ Look \/ Looked \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- what the whole says
CmdRight == pc = "done" => got = Command(Rle(text))
\* no text is lost: the arguments have the letters of the command line, in order
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE SelectSeq(q[1], LAMBDA r : r[1] = 97) \o Flat(Tail(q))
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1][2] + Sum(Tail(q))
CmdKeeps == pc = "done" => Sum(Flat(got)) = Cardinality({i \in 1..Len(text) : text[i] = 97})
LineRight == pc = "read" => LET e == ReadLine([rest |-> Rle(text), env |-> <<>>], [lim |-> lim, ask |-> TRUE])
                            IN e.l = Rle(got) /\ e.nl = z.arg /\ e.r = z.dq /\ Line(Rle(text)).rest = Rle(SubSeq(text, pos, Len(text)))
ReplRight == pc = "replaced" => Str(got) = Replace(Str(text), Str(x), Str(With))
CutRight == pc = "were" => [i \in 1..Len(got) |-> Str(got[i])] = Pieces(Str(text), {"b"})
Ends == <>(pc \in {"done", "read", "replaced", "were"})
\* ---- scripts
RECURSIVE Codes(_)
Codes(q) == IF q = <<>> THEN <<>> ELSE <<ToString(q[1][1]), ToString(q[1][2])>> \o Codes(Tail(q))
RECURSIVE Words(_)
Words(q) == IF q = <<>> THEN <<>> ELSE <<Str(<<q[1][1]>>), ToString(q[1][2])>> \o Words(Tail(q))
LimText(l) == IF l < 0 THEN "" ELSE ToString(l)
ScriptOf(m, t, y, l) ==
  CASE m = "done" -> <<<<"cmdline", "0">> \o Words(Rle(t))>>
    [] m = "read" -> <<<<"sopen">> \o Codes(Rle(t))>> \o [i \in 1..MaxLen + 1 |-> <<"sline", LimText(l), IF i % 2 = 0 THEN "0" ELSE "1">>]
    [] m = "replaced" -> <<<<"repl", Str(t), Str(y), Str(y \o <<98>>)>>>>
    [] OTHER -> <<<<"split", Str(t), "b", "held">>>>
WriteScript == IF "SCRIPTS" \in DOMAIN IOEnv /\ pc' \in {"done", "read", "replaced", "were"}
               THEN CSVWrite("%1$s", <<ToJson(ScriptOf(pc', text', x', lim'))>>, IOEnv.SCRIPTS) ELSE TRUE
=============================================================================
