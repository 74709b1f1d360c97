#!/bin/bash
# mktrace.sh TraceX ModuleY InitOp [TInv expression]: writes spec/TraceX.tla (the trace-validation wrapper of module Y)
cd "$(dirname "$0")/../spec"
inv=${4:-TRUE}
cat > $1.tla <<EOF
----------------------------- MODULE $1 -----------------------------
(* Validates recorded traces against $2: one action per recorded event.       *)
EXTENDS $2, Json, IOUtils
VARIABLES l, s
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == l = 0 /\\ s = $3
TNext == /\\ l < Len(Trace)
         /\\ LET e == Trace[l + 1]
                r == Step(s, e)
            IN IF r.ok THEN s' = r.st /\\ l' = l + 1
               ELSE PrintT(<<"REJECT", l + 1, "event", e, "expected", r.exp>>) /\\ FALSE
TInv == $inv
Accepted == IF TLCGet("stats").diameter = Len(Trace) + 1 THEN TRUE
            ELSE PrintT(<<"NOTACCEPTED", TLCGet("stats").diameter, Len(Trace)>>) /\\ FALSE
==============================================================================
EOF
