---------------------------- MODULE ProcessImpl ----------------------------
(* C31: how the end of processes is noticed.  SIGCHLD is one bit: the ends of *)
(* several processes may give one signal.  Its handler leaves one byte in the  *)
(* signal pipe of every object; the loop that waits for an object selects on   *)
(* the pipes of its output and on its signal pipe, looks at all its processes  *)
(* when there is a byte, and ends when all the pipes have come to their end.   *)
(* The process of the caller may be interrupted between any two steps.         *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Objs,     \* objects
          N,        \* commands of each
          W,        \* bytes each writes
          Cap,      \* what fits into a pipe
          MayExpire, MayKill,
          Bug       \* "" or what is done wrong
VARIABLES c,        \* c[o][i]: a command: "run", "zombie", "reaped"
          wrote,    \* wrote[o][i]: by this command
          buf,      \* buf[o]: bytes in the output pipe
          outr,     \* outr[o]: the reading end of the output is open
          sigr, sigw, sigb, \* reading and writing end of the signal pipe; bytes in it
          pend,     \* SIGCHLD pending
          pid,      \* pid[o][i]: still known
          got,      \* got[o]: bytes reported
          rdy,      \* rdy[o]: what select reported and has not been dealt with
          pc, cur,  \* of the caller, and the object it waits for
          st        \* st[o]: "no", "exec", "exited", "killed", "expired"
vars == <<c, wrote, buf, outr, sigr, sigw, sigb, pend, pid, got, rdy, pc, cur, st>>
Cs == 1..N
Init == /\ c = [o \in Objs |-> [i \in Cs |-> "none"]] /\ wrote = [o \in Objs |-> [i \in Cs |-> 0]]
        /\ buf = [o \in Objs |-> 0] /\ outr = [o \in Objs |-> FALSE] /\ sigr = outr /\ sigw = outr /\ sigb = buf
        /\ pend = FALSE /\ pid = [o \in Objs |-> [i \in Cs |-> FALSE]] /\ got = buf /\ rdy = [o \in Objs |-> {}]
        /\ pc = "idle" /\ cur = (CHOOSE p \in Objs : TRUE) /\ st = [o \in Objs |-> "no"]

(* ------------------------------------------------ the processes *)
Writes(o, i) == /\ c[o][i] = "run" /\ wrote[o][i] < W /\ buf[o] < Cap /\ outr[o]
                /\ wrote' = [wrote EXCEPT ![o][i] = @ + 1] /\ buf' = [buf EXCEPT ![o] = @ + 1]
                /\ UNCHANGED <<c, outr, sigr, sigw, sigb, pend, pid, got, rdy, pc, cur, st>>
Exits(o, i) == /\ c[o][i] = "run" /\ (wrote[o][i] = W \/ ~outr[o])
               /\ c' = [c EXCEPT ![o][i] = "zombie"] /\ pend' = TRUE
               /\ UNCHANGED <<wrote, buf, outr, sigr, sigw, sigb, pid, got, rdy, pc, cur, st>>
\* what is set up when the handler looks
Known(o) == st[o] = "exec" /\ (Bug # "late" \/ pc # "started" \/ cur # o)
Handler == /\ pend /\ pc # "mask"
           /\ pend' = FALSE
           /\ sigb' = [o \in Objs |-> IF Known(o) /\ sigw[o] /\ (Bug # "first" \/ o = CHOOSE p \in {q \in Objs : st[q] = "exec"} : TRUE)
                                      THEN (IF Bug = "add" THEN sigb[o] + 1 ELSE 1) ELSE IF Known(o) /\ sigr[o] /\ ~sigw[o] THEN 0 ELSE sigb[o]]
           /\ UNCHANGED <<c, wrote, buf, outr, sigr, sigw, pid, got, rdy, pc, cur, st>>

(* ------------------------------------------------ the caller *)
Keep == UNCHANGED <<wrote, buf, got>>
\* all pipes are made, and the object is known to the handler, before the first fork
Execute(o) == /\ pc = "idle" /\ st[o] = "no"
              /\ c' = [c EXCEPT ![o] = [i \in Cs |-> "run"]] /\ pid' = [pid EXCEPT ![o] = [i \in Cs |-> TRUE]]
              /\ outr' = [outr EXCEPT ![o] = TRUE] /\ sigr' = [sigr EXCEPT ![o] = TRUE] /\ sigw' = [sigw EXCEPT ![o] = TRUE] /\ sigb' = [sigb EXCEPT ![o] = 0]
              /\ st' = [st EXCEPT ![o] = "exec"] /\ pc' = (IF Bug = "late" THEN "started" ELSE "idle") /\ cur' = o
              /\ Keep /\ UNCHANGED <<pend, rdy>>
StartedNow == pc = "started" /\ pc' = "idle" /\ UNCHANGED <<c, wrote, buf, outr, sigr, sigw, sigb, pend, pid, got, rdy, cur, st>>
Begin(o) == pc = "idle" /\ st[o] = "exec" /\ (\A p \in Objs : st[p] # "no") /\ cur' = o /\ pc' = "loop" /\ UNCHANGED <<c, wrote, buf, outr, sigr, sigw, sigb, pend, pid, got, rdy, st>>
\* one of the pipes reported is dealt with
OutStep == /\ pc = "loop" /\ "out" \in rdy[cur]
           /\ rdy' = [rdy EXCEPT ![cur] = @ \ {"out"}]
           /\ IF buf[cur] > 0 THEN \E n \in 1..buf[cur] : buf' = [buf EXCEPT ![cur] = @ - n] /\ got' = [got EXCEPT ![cur] = @ + n] /\ outr' = outr
              ELSE outr' = [outr EXCEPT ![cur] = FALSE] /\ UNCHANGED <<buf, got>>
           /\ UNCHANGED <<c, wrote, sigr, sigw, sigb, pend, pid, pc, cur, st>>
SigStep == /\ pc = "loop" /\ "sig" \in rdy[cur] /\ "out" \notin rdy[cur]
           /\ rdy' = [rdy EXCEPT ![cur] = @ \ {"sig"}]
           /\ IF sigb[cur] > 0 THEN sigb' = [sigb EXCEPT ![cur] = 0] /\ pc' = "mask" /\ sigr' = sigr
              \* between select and here the handler may have taken the byte back: nothing is there, and it does not block
              ELSE IF sigw[cur] THEN UNCHANGED <<sigb, pc, sigr>>
              ELSE sigr' = [sigr EXCEPT ![cur] = FALSE] /\ UNCHANGED <<sigb, pc>>
           /\ UNCHANGED <<c, wrote, buf, outr, sigw, pend, pid, got, cur, st>>
Zombies == {i \in Cs : pid[cur][i] /\ c[cur][i] = "zombie"}
Reap(S) == /\ c' = [c EXCEPT ![cur] = [i \in Cs |-> IF i \in S THEN "reaped" ELSE @[i]]]
           /\ pid' = [pid EXCEPT ![cur] = [i \in Cs |-> @[i] /\ (i \notin S \/ Bug = "keep")]]
           /\ LET left == {i \in Cs : c[cur][i] # "reaped"} \ S
              IN sigw' = [sigw EXCEPT ![cur] = @ /\ (IF Bug = "early" THEN S = {} ELSE left # {})]
Destroy == /\ pc = "mask" /\ pc' = "loop"
           /\ IF Bug = "one" /\ Zombies # {} THEN \E i \in Zombies : Reap({i}) ELSE Reap(Zombies)
           /\ Keep /\ UNCHANGED <<outr, sigr, sigb, pend, rdy, cur, st>>
OutReady(o) == outr[o] /\ (buf[o] > 0 \/ \A i \in Cs : c[o][i] # "run")
SigReady(o) == sigr[o] /\ (sigb[o] > 0 \/ ~sigw[o])
Ready(o) == (IF OutReady(o) THEN {"out"} ELSE {}) \cup (IF SigReady(o) THEN {"sig"} ELSE {})
\* select does not return before something is there
Select == /\ pc = "loop" /\ rdy[cur] = {} /\ (outr[cur] \/ sigr[cur]) /\ Ready(cur) # {}
          /\ rdy' = [rdy EXCEPT ![cur] = Ready(cur)]
          /\ UNCHANGED <<c, wrote, buf, outr, sigr, sigw, sigb, pend, pid, got, pc, cur, st>>
Finish == /\ pc = "loop" /\ rdy[cur] = {} /\ ~outr[cur] /\ ~sigr[cur]
          /\ st' = [st EXCEPT ![cur] = "exited"] /\ pc' = "idle"
          /\ UNCHANGED <<c, wrote, buf, outr, sigr, sigw, sigb, pend, pid, got, rdy, cur>>
\* the pipes are closed first, then one process after the other is ended and waited for
KillAll(o, x) == /\ c' = [c EXCEPT ![o] = [i \in Cs |-> "reaped"]] /\ pid' = [pid EXCEPT ![o] = [i \in Cs |-> Bug = "keep" /\ @[i]]]
                 /\ pend' = (pend \/ \E i \in Cs : c[o][i] = "run")
                 /\ outr' = [outr EXCEPT ![o] = FALSE] /\ sigr' = [sigr EXCEPT ![o] = FALSE] /\ sigw' = [sigw EXCEPT ![o] = FALSE] /\ sigb' = [sigb EXCEPT ![o] = 0]
                 /\ rdy' = [rdy EXCEPT ![o] = {}] /\ st' = [st EXCEPT ![o] = x]
Expire == /\ MayExpire /\ pc = "loop" /\ rdy[cur] = {} /\ (outr[cur] \/ sigr[cur]) /\ KillAll(cur, "expired") /\ pc' = "idle" /\ Keep /\ UNCHANGED cur
Kill(o) == /\ MayKill /\ pc = "idle" /\ (st[o] = "exec" \/ (Bug = "keep" /\ st[o] = "expired")) /\ KillAll(o, "killed") /\ Keep /\ UNCHANGED <<pc, cur>>
Done == pc = "idle" /\ (\A o \in Objs : st[o] \in {"exited", "killed", "expired"}) /\ UNCHANGED vars
Next == \/ \E o \in Objs : Execute(o) \/ Begin(o) \/ Kill(o) \/ \E i \in Cs : Writes(o, i) \/ Exits(o, i)
        \/ Handler \/ StartedNow \/ OutStep \/ SigStep \/ Destroy \/ Select \/ Finish \/ Expire \/ Done
Fair == /\ \A o \in Objs : WF_vars(Execute(o)) /\ \A i \in Cs : WF_vars(Writes(o, i)) /\ WF_vars(Exits(o, i))
        /\ WF_vars(Handler) /\ WF_vars(StartedNow) /\ WF_vars(OutStep) /\ WF_vars(SigStep) /\ WF_vars(Destroy) /\ WF_vars(Select) /\ WF_vars(Finish)
        /\ WF_vars(\E o \in Objs : Begin(o))
Spec == Init /\ [][Next]_vars /\ Fair

(* ------------------------------------------------ what is relied on *)
\* a signal handler must not wait for room in a pipe
Room == \A o \in Objs : sigb[o] <= 1
\* the caller is not left waiting for what cannot come
Stuck == pc = "loop" /\ rdy[cur] = {} /\ (outr[cur] \/ sigr[cur]) /\ Ready(cur) = {} /\ ~pend /\ \A i \in Cs : c[cur][i] # "run"
NotStuck == ~Stuck
\* no id is used once the process is gone
OwnIds == \A o \in Objs : \A i \in Cs : pid[o][i] => c[o][i] # "reaped"
\* what has ended has left nothing behind, and when it ended by itself, all was read
Clean == \A o \in Objs : st[o] \in {"exited", "killed", "expired"} => (\A i \in Cs : c[o][i] = "reaped") /\ ~outr[o] /\ ~sigr[o] /\ ~sigw[o]
Complete == \A o \in Objs : st[o] = "exited" => got[o] = N * W
NoMore == \A o \in Objs : got[o] + buf[o] <= N * W
Ends == <>(\A o \in Objs : st[o] \in {"exited", "killed", "expired"})
=============================================================================
