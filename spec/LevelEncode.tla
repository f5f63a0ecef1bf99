----------------------------- MODULE LevelEncode -----------------------------
(* Encodes abstract level files handed in by the harness; used to produce       *)
(* well-formed files of every revision that the library itself cannot write.     *)
EXTENDS LevelFile, TLC, Json, IOUtils
Files == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Init == l = 1
Next == /\ l <= Len(Files)
        /\ PrintT("J " \o ToJson([id |-> Files[l].id, bytes |-> EncLevel(Files[l].f)]))
        /\ l' = l + 1
Spec == Init /\ [][Next]_l
=============================================================================
