------------------------------ MODULE AccessTable ------------------------------
(* Prints the accessor table for the driver. *)
EXTENDS AccessData, TLC, Json, Sequences
VARIABLE x
Init == x = 0 /\ PrintT("J " \o ToJson([families |-> Families]))
Spec == Init /\ [][FALSE]_x
=============================================================================
