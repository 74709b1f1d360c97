----------------------------- MODULE ConfigStore -----------------------------
(* Specification of kwiver::vital::config_block (vital/config/config_block.h):*)
(* blocks, live views, independent copies, read-only marks, merging, recorded *)
(* locations and typed access.                                                *)
(*                                                                            *)
(* State: roots  - root id -> store [val, des, ro, loc]                       *)
(*        h      - handle  -> [root, pre, name]; a root handle has pre = ""   *)
EXTENDS StrUtil

GlobalPrefix == "_global:"

EmptyStore == [val |-> <<>>, des |-> <<>>, ro |-> {}, loc |-> <<>>]

CInit == [roots |-> <<>>, h |-> <<>>]

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* The key of the root entry that handle hd means by k: block-global entries keep their name.
Full(s, hd, k) == IF s.h[hd].pre # "" /\ StartsWith(k, GlobalPrefix) THEN k ELSE s.h[hd].pre \o k
Store(s, hd) == s.roots[s.h[hd].root]

\* root keys visible through handle hd, and the name under which each is seen
Visible(s, hd) == {k \in DOMAIN Store(s, hd).val :
                     \/ StartsWith(k, s.h[hd].pre)
                     \/ StartsWith(k, GlobalPrefix)}
Seen(s, hd, k) == IF s.h[hd].pre # "" /\ StartsWith(k, GlobalPrefix) THEN k ELSE From(k, Len(s.h[hd].pre) + 1)
Keys(s, hd) == {Seen(s, hd, k) : k \in Visible(s, hd)}

Has(s, hd, k) == Full(s, hd, k) \in DOMAIN Store(s, hd).val
Val(s, hd, k) == Store(s, hd).val[Full(s, hd, k)]
Des(s, hd, k) == Store(s, hd).des[Full(s, hd, k)]
IsRO(s, hd, k) == Full(s, hd, k) \in Store(s, hd).ro
Loc(s, hd, k) == LET L == Store(s, hd).loc  f == Full(s, hd, k) IN IF f \in DOMAIN L THEN L[f] ELSE ""

StoreSet(st, k, v, d) ==
  [st EXCEPT !.val = Put(@, k, Trim(v)),
             !.des = IF k \notin DOMAIN @ \/ d # "" THEN Put(@, k, d) ELSE @]
StoreUnset(st, k) == [st EXCEPT !.val = Del(@, k), !.des = Del(@, k), !.loc = Del(@, k)]

WithStore(s, hd, st) == [s EXCEPT !.roots[s.h[hd].root] = st]

DoSet(s, hd, k, v, d) == WithStore(s, hd, StoreSet(Store(s, hd), Full(s, hd, k), v, d))

\* one row per visible key: <<key, value, description, "RO" or "", location>>
DumpRows(s, hd) ==
  {<<k, Val(s, hd, k), Des(s, hd, k), IF IsRO(s, hd, k) THEN "RO" ELSE "", Loc(s, hd, k)>> : k \in Keys(s, hd)}

-----------------------------------------------------------------------------
(* Typed access *)
IntLimits == [int |-> [pos |-> "2147483647", neg |-> "2147483648"],
              uint |-> [pos |-> "4294967295", neg |-> "0"],
              i64 |-> [pos |-> "9223372036854775807", neg |-> "9223372036854775808"],
              u64 |-> [pos |-> "18446744073709551615", neg |-> "0"]]

\* conversion of stored text to type ty: "!bad_cast" or the canonical text of the value
CastInt(t, ty) ==
  LET sgn == t # "" /\ Ch(t, 1) \in {"-", "+"}
      b == IF sgn THEN 2 ELSE 1
      e == SkipIn(t, Digits, b)
      neg == sgn /\ Ch(t, 1) = "-"
      d == StripZeros(SubSeq(t, b, e - 1))
  IN IF e = b THEN "!bad_cast"
     ELSE IF ~DigLE(d, IF neg THEN IntLimits[ty].neg ELSE IntLimits[ty].pos) THEN "!bad_cast"
     ELSE IF neg /\ d # "0" THEN "-" \o d ELSE d
CastBool(t) == LET u == LowerStr(t)
               IN IF u \in {"true", "yes", "1"} THEN "1" ELSE IF u \in {"false", "no", "0"} THEN "0" ELSE "!bad_cast"
Cast(t, ty) == CASE ty = "bool" -> CastBool(t)
                 [] ty = "str" -> t
                 [] OTHER -> CastInt(t, ty)
\* text that the standard library's unsigned extraction accepts although the number is negative: left open
CastOpen(t, ty) == ty \in {"uint", "u64"} /\ StartsWith(t, "-")

-----------------------------------------------------------------------------
(* Operations.  Apply(s, e) = [st |-> next state, r |-> expected result].     *)
R(st, r) == [st |-> st, r |-> r]

\* Merging src into dst when nothing is read-only: all source rows as they are before the merge.
RECURSIVE MergeRows(_, _, _)
MergeRows(st, hp, rows) ==
  IF rows = {} THEN st
  ELSE LET x == CHOOSE x \in rows : TRUE
           k == IF hp # "" /\ StartsWith(x[1], GlobalPrefix) THEN x[1] ELSE hp \o x[1]
       IN MergeRows(StoreSet(st, k, x[2], x[3]), hp, rows \ {x})

MergeBlocked(s, dst, src) == {k \in Keys(s, src) : IsRO(s, dst, k)}

NewRoot(s, hd, st, name) ==
  [s EXCEPT !.roots = Put(@, hd, st), !.h = Put(@, hd, [root |-> hd, pre |-> "", name |-> name])]

CopyStore(s, src, key) ==
  LET pre == key \o ":"
      ks == {k \in Keys(s, src) : StartsWith(k, pre) \/ StartsWith(k, GlobalPrefix)}
      rows == {<<IF StartsWith(k, pre) THEN From(k, Len(pre) + 1) ELSE k, Val(s, src, k), Des(s, src, k)>> : k \in ks}
  IN MergeRows(EmptyStore, "", rows)

Apply(s, e) ==
  CASE e.op = "new" -> R(NewRoot(s, e.h, EmptyStore, e.name), "ok")
    [] e.op = "view" -> R([s EXCEPT !.h = Put(@, e.h, [root |-> s.h[e.p].root, pre |-> s.h[e.p].pre \o e.k \o ":", name |-> e.k])], "ok")
    [] e.op = "sub" -> R(NewRoot(s, e.h, CopyStore(s, e.p, e.k), e.k), "ok")
    [] e.op = "name" -> R(s, s.h[e.h].name)
    [] e.op = "set" -> IF IsRO(s, e.h, e.k) THEN R(s, "!set_ro") ELSE R(DoSet(s, e.h, e.k, e.v, e.d), "ok")
    [] e.op = "unset" -> IF IsRO(s, e.h, e.k) THEN R(s, "!unset_ro")
                         ELSE IF ~Has(s, e.h, e.k) THEN R(s, "!no_such")
                         ELSE R(WithStore(s, e.h, StoreUnset(Store(s, e.h), Full(s, e.h, e.k))), "ok")
    [] e.op = "mark" -> R(WithStore(s, e.h, [Store(s, e.h) EXCEPT !.ro = @ \cup {Full(s, e.h, e.k)}]), "ok")
    [] e.op = "isro" -> R(s, IF IsRO(s, e.h, e.k) THEN "T" ELSE "F")
    [] e.op = "has" -> R(s, IF Has(s, e.h, e.k) THEN "T" ELSE "F")
    [] e.op = "descr" -> R(s, IF Has(s, e.h, e.k) THEN "V" \o Des(s, e.h, e.k) ELSE "!no_such")
    [] e.op = "setloc" -> R(WithStore(s, e.h, [Store(s, e.h) EXCEPT !.loc = Put(@, Full(s, e.h, e.k), e.f)]), "ok")
    [] e.op = "getloc" -> R(s, Loc(s, e.h, e.k))
    [] e.op = "print" -> R(s, "ok")
    [] e.op = "get" -> R(s, IF ~Has(s, e.h, e.k) THEN "!no_such"
                            ELSE LET c == Cast(Val(s, e.h, e.k), e.ty) IN IF c = "!bad_cast" THEN c ELSE "V" \o c)
    [] e.op = "getd" -> R(s, IF ~Has(s, e.h, e.k) THEN "V" \o e.d
                             ELSE LET c == Cast(Val(s, e.h, e.k), e.ty) IN "V" \o (IF c = "!bad_cast" THEN e.d ELSE c))
    [] e.op = "sett" -> \* typed assignment; the stored text is adopted by the following "get"-equality below
                        IF IsRO(s, e.h, e.k) THEN R(s, "!set_ro") ELSE R(DoSet(s, e.h, e.k, e.t, e.d), "ok")
    [] OTHER -> Assert(FALSE, <<"unknown operation", e>>)

\* A typed assignment may choose its text form, but that form must read back as the assigned value.
SettOK(s, e) == (e.op = "sett" /\ ~IsRO(s, e.h, e.k)) => Cast(Trim(e.t), e.ty) = (IF e.ty = "str" THEN Trim(e.v) ELSE e.v)

\* A failed merge may have been carried out partially: each key has its old row or the source's.
PartialMergeOK(s, e) ==
  LET post == SeqToSet(e.post)
      old == DumpRows(s, e.h)
      src == {<<x[1], x[2], x[3]>> : x \in DumpRows(s, e.p)}
      oldk(k) == {x \in old : x[1] = k}
      mixed(k) == \* the row after taking over the source row for key k
         {<<k, Trim(y[2]), IF oldk(k) # {} /\ y[3] = "" THEN (CHOOSE x \in oldk(k) : TRUE)[3] ELSE y[3],
            "", Loc(s, e.h, k)>> : y \in {z \in src : z[1] = k}}
      ks == {x[1] : x \in old} \cup {x[1] : x \in src}
  IN /\ NoDup(e.post)
     /\ \A x \in post : x[1] \in ks
     /\ \A k \in ks : LET now == {x \in post : x[1] = k}
                      IN IF IsRO(s, e.h, k) THEN now = oldk(k)
                         ELSE \/ now = oldk(k)
                              \/ (now # {} /\ now = mixed(k))
\* the store after adopting the observed outcome of a partial merge
RECURSIVE Adopt(_, _, _)
Adopt(s, e, rows) == IF rows = {} THEN s
                     ELSE LET x == CHOOSE x \in rows : TRUE
                          IN Adopt(IF IsRO(s, e.h, x[1]) THEN s ELSE DoSet(s, e.h, x[1], x[2], x[3]), e, rows \ {x})

\* Step(s, e): check one recorded event against the specification.
Step(s, e) ==
  CASE e.op = "reset" -> [ok |-> TRUE, st |-> CInit, exp |-> ""]
    [] e.op = "died" -> [ok |-> FALSE, st |-> s, exp |-> "no abnormal termination"]
    [] e.op = "drop" -> [ok |-> TRUE, st |-> s, exp |-> ""]
    [] e.op = "keys" -> [ok |-> NoDup(e.l) /\ SeqToSet(e.l) = Keys(s, e.h), st |-> s, exp |-> Keys(s, e.h)]
    [] e.op = "dump" -> [ok |-> NoDup(e.l) /\ SeqToSet(e.l) = DumpRows(s, e.h), st |-> s, exp |-> DumpRows(s, e.h)]
    [] e.op = "merge" ->
         IF MergeBlocked(s, e.h, e.p) = {}
         THEN [ok |-> e.r = "ok",
               st |-> WithStore(s, e.h, MergeRows(Store(s, e.h), s.h[e.h].pre, DumpRows(s, e.p))), exp |-> "ok"]
         ELSE [ok |-> e.r = "!set_ro" /\ PartialMergeOK(s, e), st |-> Adopt(s, e, SeqToSet(e.post)), exp |-> "!set_ro, old or new row per key"]
    [] OTHER -> LET a == Apply(s, e)
                IN [ok |-> (e.r = a.r /\ SettOK(s, e))
                           \/ (e.op \in {"get", "getd"} /\ Has(s, e.h, e.k) /\ CastOpen(Val(s, e.h, e.k), e.ty)),
                    st |-> a.st, exp |-> a.r]
==============================================================================
