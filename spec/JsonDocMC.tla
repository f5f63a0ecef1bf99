----------------------------- MODULE JsonDocMC ------------------------------
(* Every small variable tree is exported and imported again. The export works  *)
(* through the elements of arrays one by one (as Merge); the declarative       *)
(* reading (Describable) says which trees must be refused.                     *)
EXTENDS JsonDoc, TLC, Json
CONSTANTS Emitting, Deep, Mutate
VARIABLES stage, v, schema, doc, back
vars == << stage, v, schema, doc, back >>

V0 == { [t |-> TBOOL, b |-> TRUE], [t |-> TINT, n |-> -1] }
Ka == << 97 >>
Kb == << 98 >>
Structs(S) == { [t |-> TSTRUCT, kv |-> << >>] }
              \cup { [t |-> TSTRUCT, kv |-> << [k |-> k, v |-> x] >>] : k \in {Ka, Kb}, x \in S }
              \cup { [t |-> TSTRUCT, kv |-> << [k |-> Kb, v |-> x], [k |-> Ka, v |-> y] >>] : x \in S, y \in S }
ArraysOf(et, S) == { [t |-> TARRAY, et |-> et, a |-> << >>] }
                   \cup { [t |-> TARRAY, et |-> et, a |-> << x >>] : x \in S }
                   \cup { [t |-> TARRAY, et |-> et, a |-> << x, y >>] : x \in S, y \in S }
OfType(S, t) == { x \in S : x.t = t }
Arrays(S) == UNION { ArraysOf(t, OfType(S, t)) : t \in { TBOOL, TINT, TSTRUCT, TARRAY } }
Next1(S) == Structs(S) \cup Arrays(S)
V1 == V0 \cup Next1(V0)
V2 == V0 \cup Next1(V1)
A2 == OfType(V2, TARRAY)
S2 == OfType(V2, TSTRUCT)

Nil == [t |-> 0]
Init == stage = "tree" /\ v \in V2 /\ schema = SAny /\ doc = DArr(<< >>) /\ back = Nil
(* arrays of up to two of the above *)
Wrap == /\ stage = "tree" /\ v \in (A2 \cup IF Deep THEN S2 ELSE {})
        /\ stage' = "wrapped" /\ v' = [t |-> TARRAY, et |-> v.t, a |-> << v >>]
        /\ UNCHANGED << schema, doc, back >>
Add == /\ stage = "wrapped" /\ Len(v.a) = 1
       /\ \E x \in (IF v.et = TARRAY THEN A2 ELSE S2) : v' = [v EXCEPT !.a = << @[1], x >>]
       /\ UNCHANGED << stage, schema, doc, back >>
FirstOnly(x) == \* the mutated exporter looks at the first element only
    IF x.t = TARRAY /\ Len(x.a) > 1 THEN SchemaOf([x EXCEPT !.a = << x.a[1] >>]) ELSE SchemaOf(x)
Export == /\ stage \in {"tree", "wrapped"}
          /\ LET s == IF Mutate THEN FirstOnly(v) ELSE SchemaOf(v) IN
             IF HasErr(s) THEN stage' = "refused" /\ UNCHANGED << schema, doc >>
             ELSE stage' = "document" /\ schema' = s /\ doc' = DocOf(v)
          /\ UNCHANGED << v, back >>
Import == /\ stage = "document"
          /\ IF Covers(schema, doc) THEN stage' = "done" /\ back' = Value(schema, doc)
             ELSE stage' = "broken" /\ UNCHANGED back
          /\ UNCHANGED << v, schema, doc >>
Next == Wrap \/ Add \/ Export \/ Import
Spec == Init /\ [][Next]_vars

Faithful == stage = "done" => back = v
Refusals == (stage = "refused") = (stage \in {"refused"} /\ ~Describable(v))
NeverBroken == stage # "broken"
Accepted == stage \in {"document", "done"} => Describable(v)
Emit == (Emitting /\ stage \in {"tree", "wrapped"}) => PrintT("J " \o ToJson([v |-> v]))
=============================================================================
