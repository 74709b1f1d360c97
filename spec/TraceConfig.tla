----------------------------- MODULE TraceConfig -----------------------------
(* Validates traces recorded from the real configuration block.               *)
EXTENDS ConfigStore, Json, IOUtils
VARIABLES l, s
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 0 /\ s = CInit
TNext == /\ l < Len(Trace)
         /\ LET e == Trace[l + 1]
                r == Step(s, e)
            IN IF r.ok THEN s' = r.st /\ l' = l + 1
               ELSE PrintT(<<"REJECT", l + 1, "event", e, "expected", r.exp>>) /\ FALSE
\* state invariants of the specification, checked along every recorded trace as well
TInv == /\ \A r \in DOMAIN s.roots : DOMAIN s.roots[r].val = DOMAIN s.roots[r].des
        /\ \A x \in DOMAIN s.h : \A k \in Keys(s, x) : Has(s, x, k)
Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE PrintT(<<"NOTACCEPTED", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
==============================================================================
