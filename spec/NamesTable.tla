------------------------------ MODULE NamesTable ------------------------------
(* Prints the enumerations for the driver. *)
EXTENDS Names, Json, SequencesExt
VARIABLE x
Init == x = 0 /\ \A e \in EnumNames : PrintT("J " \o ToJson([enum |-> e, members |-> SetToSeq(Enums[e])]))
Spec == Init /\ [][FALSE]_x
=============================================================================
