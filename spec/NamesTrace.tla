------------------------------ MODULE NamesTrace ------------------------------
(* Judges the names and tables of the running library. *)
EXTENDS Names, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Clause(n, ok) == IF ok THEN {} ELSE {n}
(* e.byname: name -> value; e.byvalue: value -> name *)
FailsEnum(e) ==
    Clause("member-missing", \A m \in Enums[e.enum] : \E i \in DOMAIN e.byname : e.byname[i].n = m.n)
    \cup Clause("member-number", \A i \in DOMAIN e.byname : \A m \in Enums[e.enum] : e.byname[i].n = m.n => e.byname[i].v = m.v)
    \cup Clause("number-member", \A m \in Enums[e.enum] : \A i \in DOMAIN e.byvalue : e.byvalue[i].v = m.v => e.byvalue[i].n = m.n)
    \cup (IF { e.byvalue[i].v : i \in DOMAIN e.byvalue } # { m.v : m \in Enums[e.enum] } THEN {"harness-values"} ELSE {})
FailsShape(e) ==
    Clause("vertexes", e.verts = Outline[e.sh + 1])
    \cup Clause("ordered-sides", e.sides = OrderedSides(e.sh))
    \cup Clause("edge-by-index", \A s \in 0..3 : e.edges[s + 1] = << EdgeA(e.sh, s), EdgeB(e.sh, s) >>)
Fails(e) == CASE e.op = "enum" -> FailsEnum(e)
              [] e.op = "shape" -> FailsShape(e)
              [] e.op = "cw" -> Clause("clockwise-index", e.cw = CwIndex)
              [] e.op = "dustblock" -> Clause("dustblock-table", e.tiles = Dustblocks)
              [] e.op = "mouse" -> Clause("mouse-state", { e.names[i] : i \in DOMAIN e.names } = { m.n : m \in {x \in Enums["MouseState"] : (e.v \div x.v) % 2 = 1} })
              [] e.op = "stored" -> Clause("stored-number", e.num = (CHOOSE m \in Enums[e.enum] : m.n = e.name).v) \cup Clause("read-name", e.back = e.name)
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
