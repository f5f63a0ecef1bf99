------------------------------ MODULE AccessTrace ------------------------------
(* Judges histories of accessor use on real objects. e.vars are all variables  *)
(* of the object after the operation.                                          *)
EXTENDS Access, AccessData, TLC, Json, IOUtils, FiniteSets
Clause(n, ok) == IF ok THEN {} ELSE {n}
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, m
AsMap(kv) == [k \in { kv[i].k : i \in DOMAIN kv } |-> kv[CHOOSE i \in DOMAIN kv : kv[i].k = k].v]
FamilyOf(c) == CHOOSE i \in DOMAIN Families : c \in Families[i].classes
RowOf(c, a) == LET as == Families[FamilyOf(c)].attrs IN as[CHOOSE i \in DOMAIN as : as[i].a = a]
Raw(k) == [k |-> k, t |-> 0, d |-> NoVal]
Exp(e) == Apply(m, IF e.op = "poke" THEN Raw(e.k) ELSE RowOf(e.c, e.a), e.op, e.v)
Fails(e) ==
    IF e.op = "new" THEN Clause("start", AsMap(e.vars) = AsMap(e.init) /\ Len(e.vars) = Len(e.init))
    ELSE LET x == Exp(e) IN
    Clause("outcome", e.ok = x.ok)
    \cup Clause("error", (~e.ok /\ ~x.ok) => (x.err = "any" \/ e.err = x.err))
    \cup Clause("returned", (e.ok /\ x.ok) => e.ret = x.ret)
    \cup Clause("variables", AsMap(e.vars) \in x.ms)
TInit == l = 1 /\ m = [k \in {} |-> NoVal]
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  /\ IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
                /\ m' = AsMap(e.vars)
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<< l, m >>
=============================================================================
