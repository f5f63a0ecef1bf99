------------------------------ MODULE JsonTrace ------------------------------
(* Judges recorded conversions between variables and their JSON view.          *)
EXTENDS JsonDoc, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l

(* variables -> JSON (through text) -> variables *)
FailsConv(e) ==
    IF ~Describable(e.v) THEN Clause("refused", e.out = "ValueError")
    ELSE IF e.out # "ok" THEN {"export-outcome"}
    ELSE Clause("import-outcome", e.rout = "ok")
         \cup Clause("round-trip", e.rout = "ok" => Same(e.v, e.r))
         \cup Clause("key-order", (e.rout = "ok" /\ Same(e.v, e.r)) => SameOrder(e.v, e.r))
         \cup Clause("schema", SameSchema(SchemaOf(e.v), e.schema))
         \cup Clause("document", SameDoc(DocOf(e.v), e.doc))
         \cup Clause("source-kept", Same(e.v, e.v1))

(* a document made by hand *)
FailsDoc(e) ==
    IF ~Covers(e.schema, e.doc) THEN {"harness-document"}
    ELSE Clause("import-outcome", e.rout = "ok")
         \cup Clause("import-value", e.rout = "ok" => Same(Value(e.schema, e.doc), e.r))

(* printed by the command line tool and fed back *)
FailsCli(e) ==
    IF ~Describable(e.v) THEN Clause("refused", e.out # "ok" /\ e.kept)
    ELSE Clause("print-outcome", e.out = "ok")
         \cup (IF e.out # "ok" THEN {} ELSE
               Clause("print-kept", e.kept)
               \cup Clause("schema", SameSchema(SchemaOf(e.v), e.schema))
               \cup Clause("document", SameDoc(DocOf(e.v), e.doc))
               \cup Clause("update-outcome", e.uout = "ok")
               \cup Clause("unchanged", e.uout = "ok" => (e.rout = "ok" /\ Same(e.v, e.r)))
               \cup Clause("key-order", (e.uout = "ok" /\ e.rout = "ok" /\ Same(e.v, e.r)) => SameOrder(e.v, e.r)))

Fails(e) == CASE e.op = "conv" -> FailsConv(e)
              [] e.op = "doc" -> FailsDoc(e)
              [] e.op = "cli" -> FailsCli(e)
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
