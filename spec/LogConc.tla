------------------------------- MODULE LogConc -------------------------------
(* Threads writing multi-line messages, one line per step, with (Locked) or  *)
(* without a lock held for a whole message.                                  *)
EXTENDS Integers, Sequences
CONSTANTS Locked, Threads, NMsg, NLines
VARIABLES pos, line, holder, log
vars == <<pos, line, holder, log>>
Init == pos = [t \in Threads |-> 1] /\ line = [t \in Threads |-> 1] /\ holder = 0 /\ log = <<>>
Write(t) == /\ pos[t] <= NMsg /\ (Locked => holder \in {0, t})
            /\ log' = Append(log, <<t, pos[t], line[t]>>)
            /\ IF line[t] = NLines THEN pos' = [pos EXCEPT ![t] = @ + 1] /\ line' = [line EXCEPT ![t] = 1] /\ holder' = 0
               ELSE line' = [line EXCEPT ![t] = @ + 1] /\ holder' = t /\ UNCHANGED pos
Next == \E t \in Threads : Write(t)
Spec == Init /\ [][Next]_vars
Whole == \A i \in 1..Len(log) : log[i][3] > 1 => log[i - 1] = <<log[i][1], log[i][2], log[i][3] - 1>>
InOrder == \A i, j \in 1..Len(log) : (i < j /\ log[i][1] = log[j][1]) => log[i][2] < log[j][2] \/ (log[i][2] = log[j][2] /\ log[i][3] < log[j][3])
=============================================================================
