------------------------------ MODULE Registry ------------------------------
(* The registry of algorithm implementations, instances made from it, and    *)
(* nested algorithm configuration.  Configurations are maps from keys to     *)
(* texts.  The algorithms are the harness's: each has a type, an             *)
(* implementation name, a parameter p, and slots for nested algorithms; they *)
(* configure themselves in the usual way, from their own configuration       *)
(* overlaid with the given one.                                              *)
EXTENDS StrUtil

\* reg: type -> implementation name -> prototype; inst: handle -> instance; cfg: name -> configuration
NoAlgo == [impl |-> ""]
Types == {"t1", "t2"}
RInit == [reg |-> [t \in Types |-> <<>>], inst |-> <<>>, cfg |-> <<>>]
\* an instance: [type, impl, id (of its prototype), descr, p, slots: name -> [type, algo]]
Has(t, k) == k \in DOMAIN t
Names(s, t) == DOMAIN s.reg[t]
Protos(s) == s.reg
RegImpl(s, t, n) == Has(s.reg[t], n)

-----------------------------------------------------------------------------
(* configuration maps *)
Under(c, b) == [k \in {From(q, Len(b) + 2) : q \in {q \in DOMAIN c : StartsWith(q, b \o ":")}} |-> c[b \o ":" \o k]]
Prefixed(c, b) == [k \in {b \o ":" \o q : q \in DOMAIN c} |-> c[From(k, Len(b) + 2)]]
Over(c, d) == d @@ c
RECURSIVE ReportOf(_), SlotsReport(_, _)
\* what an algorithm reports as its configuration
ReportOf(a) == Over("p" :> a.p, SlotsReport(a, DOMAIN a.slots))
\* reporting a nested algorithm into configuration c
NestGet(name, c, a) == IF a # NoAlgo THEN Over(c, (name \o ":type" :> a.impl) @@ Prefixed(ReportOf(a), name \o ":" \o a.impl))
                       ELSE IF Has(c, name \o ":type") THEN c ELSE Over(c, name \o ":type" :> "")
SlotsReport(a, S) == IF S = {} THEN <<>> ELSE LET n == CHOOSE n \in S : TRUE IN Over(SlotsReport(a, S \ {n}), NestGet(n, <<>>, a.slots[n].algo))
\* configuring
RECURSIVE Configured(_, _, _), NestSet(_, _, _, _, _), Accepts(_, _, _), NestCheck(_, _, _, _)
Configured(reg, a, given) ==
  LET c == Over(ReportOf(a), given)
  IN [a EXCEPT !.p = c["p"], !.slots = [n \in DOMAIN a.slots |-> [type |-> a.slots[n].type, algo |-> NestSet(reg, a.slots[n].type, n, c, a.slots[n].algo)]]]
NestSet(reg, t, name, c, a) ==
  IF Has(c, name \o ":type") /\ Has(reg[t], c[name \o ":type"])
  THEN LET i == c[name \o ":type"] IN Configured(reg, reg[t][i], Under(c, name \o ":" \o i))
  ELSE a
\* which implementations are configured with what, in order, by NestSet
RECURSIVE Given(_, _, _, _), GivenSlots(_, _, _, _)
Given(reg, t, name, c) ==
  IF Has(c, name \o ":type") /\ Has(reg[t], c[name \o ":type"])
  THEN LET i == c[name \o ":type"]
           u == Under(c, name \o ":" \o i)
           a == reg[t][i]
       IN <<[impl |-> i, id |-> a.id, c |-> u]>> \o GivenSlots(reg, a, Over(ReportOf(a), u), a.order)
  ELSE <<>>
GivenSlots(reg, a, c, q) == IF q = <<>> THEN <<>> ELSE Given(reg, a.slots[Head(q)].type, Head(q), c) \o GivenSlots(reg, a, c, Tail(q))
\* checking: the harness's algorithms refuse a configuration in which p is "bad"
Accepts(reg, a, c) == /\ ~(Has(c, "p") /\ c["p"] = "bad")
                      /\ \A n \in DOMAIN a.slots : NestCheck(reg, a.slots[n].type, n, c)
NestCheck(reg, t, name, c) == /\ Has(c, name \o ":type") /\ Has(reg[t], c[name \o ":type"])
                              /\ Accepts(reg, reg[t][c[name \o ":type"]], Under(c, name \o ":" \o c[name \o ":type"]))
-----------------------------------------------------------------------------
Res(ok, st, exp) == [ok |-> ok, st |-> st, exp |-> exp]
\* a map written as a sequence of pairs, in any order
MapOf(q) == [k \in {q[i][1] : i \in 1..Len(q)} |-> q[CHOOSE i \in 1..Len(q) : q[i][1] = k][2]]
IsMap(q, m) == Len(q) = Cardinality(DOMAIN m) /\ MapOf(q) = m
IsSet(q, S) == Len(q) = Cardinality(S) /\ {q[i] : i \in 1..Len(q)} = S
Slots(q) == [n \in {q[i][1] : i \in 1..Len(q)} |-> [type |-> q[CHOOSE i \in 1..Len(q) : q[i][1] = n][2], algo |-> NoAlgo]]
New(e) == [type |-> e.t, impl |-> e.n, id |-> e.id, descr |-> e.d, p |-> e.p, slots |-> Slots(e.slots), order |-> [i \in 1..Len(e.slots) |-> e.slots[i][1]]]
\* what an instance shows of itself
Shows(e, a) == e.got /\ e.id = a.id /\ e.impl = a.impl /\ e.ty = a.type /\ IsMap(e.c, ReportOf(a))
Options(s, t) == {n \o (IF s.reg[t][n].descr = "" THEN "" ELSE " :: " \o s.reg[t][n].descr) : n \in Names(s, t)}
Known(t) == t \in Types
Step(s, e) ==
  CASE e.op = "reset" -> Res(TRUE, RInit, "")
    [] e.op = "register" -> Res(e.r, [s EXCEPT !.reg[e.t] = (e.n :> New(e)) @@ @], "")
    [] e.op = "nothing" -> Res(~e.r, s, FALSE)
    [] e.op = "names" -> LET all == UNION {{t \o ":" \o n : n \in Names(s, t)} : t \in Types}
                             own(t) == IF Known(t) THEN Names(s, t) ELSE {}
                         IN Res(IF e.t = "" THEN IsSet(e.v, all) /\ e.has = (all # {})
                                ELSE IsSet(e.v, own(e.t)) /\ e.has = (own(e.t) # {}) /\ (e.typed => IsSet(e.tv, own(e.t))), s, all)
    [] e.op = "has" -> LET v == Known(e.t) /\ RegImpl(s, e.t, e.n) IN Res(e.v = v /\ e.tv = v, s, v)
    \* an instance asked for through the type and through the common base
    [] e.op = "create" -> IF Known(e.t) /\ RegImpl(s, e.t, e.n)
                          THEN LET a == s.reg[e.t][e.n] IN Res(Shows(e, a) /\ e.fresh, [s EXCEPT !.inst = (e.h :> a) @@ @], a)
                          ELSE Res(~e.got, [s EXCEPT !.inst = (e.h :> NoAlgo) @@ @], "none")
    [] e.op = "clone" -> LET a == s.inst[e.g] IN Res(Shows(e, a) /\ e.fresh, [s EXCEPT !.inst = (e.h :> a) @@ @], a)
    [] e.op = "show" -> LET a == s.inst[e.h] IN Res(IF a = NoAlgo THEN ~e.got ELSE Shows(e, a), s, a)
    \* the configurations of all implementations of a type
    [] e.op = "impls" -> LET S == Names(s, e.t)
                             m == [k \in UNION {DOMAIN Prefixed(ReportOf(s.reg[e.t][n]), n) : n \in S} |->
                                     LET n == CHOOSE n \in S : k \in DOMAIN Prefixed(ReportOf(s.reg[e.t][n]), n) IN Prefixed(ReportOf(s.reg[e.t][n]), n)[k]]
                         IN Res(IsMap(e.c, m), s, m)
    [] e.op = "conf" -> Res(TRUE, [s EXCEPT !.cfg = (e.k :> MapOf(e.v)) @@ @], "")
    [] e.op = "configure" -> LET a == Configured(s.reg, s.inst[e.h], s.cfg[e.k]) IN Res(Shows(e, a), [s EXCEPT !.inst[e.h] = a], a)
    [] e.op = "nset" -> LET a == NestSet(s.reg, e.t, e.n, s.cfg[e.k], s.inst[e.h])
                            g == Given(s.reg, e.t, e.n, s.cfg[e.k])
                            same == g = <<>>
                        IN Res(/\ (IF a = NoAlgo THEN ~e.got ELSE Shows(e, a)) /\ e.kept = same
                               /\ IsMap(e.after, s.cfg[e.k])
                               /\ Len(e.given) = Len(g) /\ \A i \in 1..Len(g) : e.given[i].impl = g[i].impl /\ e.given[i].id = g[i].id /\ IsMap(e.given[i].c, g[i].c),
                               [s EXCEPT !.inst[e.h] = a], <<a, g>>)
    [] e.op = "nget" -> LET c == NestGet(e.n, s.cfg[e.k], s.inst[e.h])
                            wrote == s.inst[e.h] # NoAlgo \/ ~Has(s.cfg[e.k], e.n \o ":type")
                        IN Res(IsMap(e.c, c) /\ (wrote => IsSet(e.options, Options(s, e.t))), [s EXCEPT !.cfg[e.k] = c], c)
    [] e.op = "ncheck" -> LET v == NestCheck(s.reg, e.t, e.n, s.cfg[e.k]) IN Res(e.v = v /\ IsMap(e.after, s.cfg[e.k]), s, v)
    [] OTHER -> Res(FALSE, s, "no such operation in the specification")
=============================================================================
