----------------------------- MODULE EntTypesTable -----------------------------
(* Prints the documented entity types for the driver. *)
EXTENDS EntTypes, TLC, Json
VARIABLE x
Init == x = 0 /\ PrintT("J " \o ToJson([rows |-> Builtin]))
Spec == Init /\ [][FALSE]_x
=============================================================================
