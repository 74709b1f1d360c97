----------------------------- MODULE TraceBase64 -----------------------------
(* Validates recorded traces against Base64: one action per recorded event.       *)
EXTENDS Base64, Json, IOUtils
VARIABLES l, s
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 0 /\ s = BInit
TNext == /\ l < Len(Trace)
         /\ LET e == Trace[l + 1]
                r == Step(s, e)
            IN IF r.ok THEN s' = r.st /\ l' = l + 1
               ELSE PrintT(<<"REJECT", l + 1, "event", e, "expected", r.exp>>) /\ FALSE
TInv == TRUE
Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE PrintT(<<"NOTACCEPTED", TLCGet("stats").diameter, Len(Trace)>>) /\ FALSE
==============================================================================
