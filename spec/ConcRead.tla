------------------------------ MODULE ConcRead ------------------------------
(* Readers of configuration files running at the same time, at the grain of  *)
(* "match a pattern" / "use the match".  With a private matcher per reader   *)
(* every interleaving gives every reader the result it gets alone; with one  *)
(* shared matcher (Shared = TRUE) TLC finds the interleaving that does not.  *)
EXTENDS Integers, Sequences
CONSTANTS Shared, Readers, NTok
VARIABLES pos, pc, match, out
vars == <<pos, pc, match, out>>
Text(r) == [i \in 1..NTok |-> <<r, i>>]
M(r) == IF Shared THEN 0 ELSE r
Init == /\ pos = [r \in Readers |-> 1] /\ pc = [r \in Readers |-> "find"]
        /\ match = [m \in Readers \cup {0} |-> <<0, 0>>] /\ out = [r \in Readers |-> <<>>]
Find(r) == pc[r] = "find" /\ pos[r] <= NTok /\ match' = [match EXCEPT ![M(r)] = Text(r)[pos[r]]]
           /\ pc' = [pc EXCEPT ![r] = "use"] /\ UNCHANGED <<pos, out>>
Use(r) == pc[r] = "use" /\ out' = [out EXCEPT ![r] = Append(@, match[M(r)])] /\ pos' = [pos EXCEPT ![r] = @ + 1]
          /\ pc' = [pc EXCEPT ![r] = "find"] /\ UNCHANGED match
Next == \E r \in Readers : Find(r) \/ Use(r)
Spec == Init /\ [][Next]_vars
Alone == \A r \in Readers : out[r] = SubSeq(Text(r), 1, pos[r] - 1)
============================================================================
