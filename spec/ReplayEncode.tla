---------------------------- MODULE ReplayEncode ----------------------------
(* Encodes abstract replays handed in by the harness, with the given tokens.    *)
EXTENDS Replay, TLC, Json, IOUtils
Files == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Files)
        /\ LET F == Files[l].f
               T(p, i) == F.toks[p][i]
           IN  PrintT("J " \o ToJson([id |-> Files[l].id, bytes |-> EncReplay(F, T, F.slack)]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
