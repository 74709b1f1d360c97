------------------------------ MODULE PlugOnce ------------------------------
(* Threads that need the plugins call load_plugins_once: one loads the modules *)
(* one by one, the others wait.  Lock and FlagLast describe the protocol: one  *)
(* lock around test and loading, and the flag set after the last module.       *)
EXTENDS Integers, FiniteSets
CONSTANTS Threads, Modules, Lock, FlagLast
VARIABLES pc, first, holder, todo, ret, runs, seen
vars == <<pc, first, holder, todo, ret, runs, seen>>
Init == /\ pc = [t \in Threads |-> "start"] /\ first = TRUE /\ holder = 0
        /\ todo = [t \in Threads |-> {}] /\ ret = [t \in Threads |-> "none"] /\ runs = [m \in Modules |-> 0] /\ seen = [t \in Threads |-> {}]
Done == {m \in Modules : runs[m] > 0}
Leave(t, r) == /\ pc' = [pc EXCEPT ![t] = "back"] /\ ret' = [ret EXCEPT ![t] = r] /\ seen' = [seen EXCEPT ![t] = Done]
               /\ holder' = IF holder = t THEN 0 ELSE holder
Enter(t) == /\ pc[t] = "start" /\ (Lock => holder = 0)
            /\ pc' = [pc EXCEPT ![t] = "test"] /\ holder' = IF Lock THEN t ELSE holder
            /\ UNCHANGED <<first, todo, ret, runs, seen>>
Test(t) == /\ pc[t] = "test"
           /\ IF first THEN /\ pc' = [pc EXCEPT ![t] = "load"] /\ todo' = [todo EXCEPT ![t] = Modules]
                            /\ first' = (IF FlagLast THEN first ELSE FALSE) /\ UNCHANGED <<ret, seen, holder>>
              ELSE Leave(t, "false") /\ UNCHANGED <<first, todo>>
           /\ UNCHANGED runs
Load(t) == /\ pc[t] = "load"
           /\ IF todo[t] = {} THEN first' = FALSE /\ Leave(t, "true") /\ UNCHANGED <<todo, runs>>
              ELSE \E m \in todo[t] : runs' = [runs EXCEPT ![m] = @ + 1] /\ todo' = [todo EXCEPT ![t] = @ \ {m}] /\ UNCHANGED <<first, pc, ret, seen, holder>>
Next == \E t \in Threads : Enter(t) \/ Test(t) \/ Load(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
AtMostOnce == \A m \in Modules : runs[m] <= 1
OneLoader == Cardinality({t \in Threads : ret[t] = "true"}) <= 1
NobodyEarly == \A t \in Threads : pc[t] = "back" => seen[t] = Modules
AllReturn == <>(\A t \in Threads : pc[t] = "back")
=============================================================================
