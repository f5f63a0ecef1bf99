------------------------------- MODULE SeqTrace -------------------------------
(* Judges histories of operations on real array variables. cur is the plain    *)
(* sequence the specification expects; e.boxes and e.plain are what was seen   *)
(* after the operation (e.boxes through .value, e.plain through iteration).    *)
EXTENDS VarSeq, TLC, Json, IOUtils
Clause(n, ok) == IF ok THEN {} ELSE {n}
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES l, cur, et
Bad(v) == v.t < 0
AnyBad(vs) == \E i \in DOMAIN vs : Bad(vs[i])
NoV == [t |-> 0]
(* what is expected: ok, the error kind ("any" accepts every refusal), the     *)
(* returned value and the sequence afterwards                                  *)
Exp(ok, err, ret, s) == [ok |-> ok, err |-> err, ret |-> ret, s |-> s]
Fine(ret, s) == Exp(TRUE, "", ret, s)
No(err, s) == Exp(FALSE, err, NoV, s)
Int0(n) == [t |-> 2, n |-> n]
Bool0(b) == [t |-> 1, b |-> b]
Expect(e, s) ==
    LET n == Len(s) IN
    CASE e.op = "new" -> Fine(NoV, e.vs)
      [] e.op = "get" -> IF InRange(e.i, n) THEN Fine(Got(s, e.i), s) ELSE No("index", s)
      [] e.op = "set" -> IF Bad(e.v) THEN No("any", s) ELSE IF InRange(e.i, n) THEN Fine(NoV, Put(s, e.i, e.v)) ELSE No("index", s)
      [] e.op = "insert" -> IF Bad(e.v) THEN No("any", s) ELSE Fine(NoV, Ins(s, e.i, e.v))
      [] e.op = "append" -> IF Bad(e.v) THEN No("any", s) ELSE Fine(NoV, Append(s, e.v))
      [] e.op = "del" -> IF InRange(e.i, n) THEN Fine(NoV, Without(s, e.i)) ELSE No("index", s)
      [] e.op = "delslice" -> Fine(NoV, Drop(s, SliceSet(e.a, e.b, e.i, n), 1))
      [] e.op = "pop" -> IF InRange(e.i, n) THEN Fine(Got(s, e.i), Without(s, e.i)) ELSE No("index", s)
      [] e.op = "poplast" -> IF n > 0 THEN Fine(s[n], SubSeq(s, 1, n - 1)) ELSE No("index", s)
      [] e.op = "remove" -> IF In(s, e.v) THEN Fine(NoV, Without(s, First(s, e.v))) ELSE No("value", s)
      [] e.op = "reverse" -> Fine(NoV, Rev(s))
      [] e.op \in {"extend", "iadd"} -> IF AnyBad(e.vs) THEN No("any", s \o Prefix(e.vs)) ELSE Fine(NoV, s \o e.vs)
      [] e.op = "double" -> Fine(NoV, s \o s)
      [] e.op = "clear" -> Fine(NoV, << >>)
      [] e.op = "index" -> IF In(s, e.v) THEN Fine(Int0(First(s, e.v)), s) ELSE No("value", s)
      [] e.op = "count" -> Fine(Int0(Times(s, e.v)), s)
      [] e.op = "contains" -> Fine(Bool0(In(s, e.v)), s)
      [] e.op = "len" -> Fine(Int0(n), s)
      [] e.op = "reversed" -> Fine([t |-> 15, et |-> 0, a |-> Rev(s)], s)
      [] OTHER -> Fine([t |-> -9], s)
Fails(e, s, ty) ==
    LET x == Expect(e, s) IN
    Clause("outcome", e.ok = x.ok)
    \cup Clause("error", (~e.ok /\ ~x.ok) => (x.err = "any" \/ e.err = x.err))
    \cup Clause("returned", (e.ok /\ x.ok) => e.ret = x.ret)
    \cup Clause("sequence", e.plain = x.s)
    \cup Clause("boxes", e.boxes = [t |-> 15, et |-> ty, a |-> x.s])
TInit == l = 1 /\ cur = << >> /\ et = 0
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                ty == IF e.op = "new" THEN e.et ELSE et
                f == Fails(e, cur, ty)
            IN  /\ IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f, info |-> [before |-> cur]]))
                /\ cur' = Expect(e, cur).s /\ et' = ty
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<< l, cur, et >>
=============================================================================
