------------------------------ MODULE SaveTrace ------------------------------
(* Judges recorded save conversions. e.in and e.out map variable names to      *)
(* typed values (VarCodec records); e.scores are the entries of the input.     *)
EXTENDS VarCodec, TLC, Json, IOUtils
INSTANCE SaveConv
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
HasN(m, k) == \E i \in DOMAIN m : m[i].k = k
AtN(m, k) == m[CHOOSE i \in DOMAIN m : m[i].k = k].v
NamesOf(m) == { m[i].k : i \in DOMAIN m }
VInt(n) == [t |-> TINT, n |-> n]
One(t, x) == [t |-> TARRAY, et |-> t, a |-> << x >>]

Fields == { "combo", "time", "thorough", "best_time", "overall" }
(* the entry the conversion makes of a score *)
Entry(s) == { << "rind", VInt(0) >>, << "file_name", [t |-> TSTR, s |-> s.nb] >>, << "key_type", VInt(KeyType(s.n)) >> }
            \cup { << f, s[f] >> : f \in Fields }
AsSet(kv) == { << kv[i].k, kv[i].v >> : i \in DOMAIN kv }
Want(e) == [i \in DOMAIN e.scores |-> IF Known(e.scores[i].n) THEN Entry(e.scores[i]) ELSE {}]
TimesIn(w, x) == Cardinality({ i \in DOMAIN w : w[i] = x })

Fails(e) ==
    IF e.notsave THEN Clause("refused", e.rc = "fail") \cup Clause("input-kept", e.kept) \cup Clause("output-kept", e.outkept)
    ELSE IF e.rc # "ok" THEN {"outcome"}
    ELSE LET o == e.out IN
    Clause("input-kept", e.kept)
    \cup Clause("whole", e.size = e.len)
    \cup Clause("names", NamesOf(o) = Made \cup (NamesOf(e.in) \cap Copied) /\ Len(o) = Cardinality(NamesOf(o)))
    \cup Clause("copied", \A k \in NamesOf(e.in) \cap Copied : HasN(o, k) /\ AtN(o, k) = AtN(e.in, k))
    \cup Clause("wood", HasN(o, "k_wood_used") /\ AtN(o, "k_wood_used") = One(TINT, VInt(Count(e.scores, 1))))
    \cup Clause("silver", HasN(o, "k_silver_used") /\ AtN(o, "k_silver_used") = One(TINT, VInt(Count(e.scores, 2))))
    \cup Clause("gold", HasN(o, "k_gold_used") /\ AtN(o, "k_gold_used") = One(TINT, VInt(Count(e.scores, 3))))
    \cup Clause("red", HasN(o, "k_red_used") /\ AtN(o, "k_red_used") = One(TINT, IF HasN(e.in, "red_used") THEN AtN(e.in, "red_used") ELSE VInt(0)))
    \cup Clause("root", HasN(o, "k_root") /\ AtN(o, "k_root") = One(TSTR, [t |-> TSTR, s |-> << >>]))
    \cup Clause("ngplus", HasN(o, "k_ngplus") /\ AtN(o, "k_ngplus") = One(TBOOL, [t |-> TBOOL, b |-> FALSE]))
    \cup (LET sc == e.newscores
              w == Want(e)
              g == [i \in DOMAIN sc |-> AsSet(sc[i].kv)]
          IN  Clause("score-array", e.scoretype = TSTRUCT)
              \cup Clause("scores", /\ \A i \in DOMAIN w : w[i] # {} => TimesIn(g, w[i]) = TimesIn(w, w[i])
                                    /\ \A i \in DOMAIN g : TimesIn(w, g[i]) = TimesIn(g, g[i]))
              \cup Clause("score-order", \A i \in 1..(Len(sc) - 1) : Leq(sc[i].nb, sc[i + 1].nb)))
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
