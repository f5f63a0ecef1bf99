----------------------------- MODULE EntTypesMC -----------------------------
(* Defining entity classes and reading entities, with the registry kept as a   *)
(* map that is updated by each definition.                                     *)
EXTENDS EntTypes, TLC, Json
CONSTANTS MaxDefs, Emitting, Mutate
VARIABLES defs, reg, n
vars == << defs, reg, n >>
Ids == {"score_book", "hittable_apple", "z_mine", "z_other"}
AllIds == { Builtin[k].i : k \in DOMAIN Builtin } \cup Ids
Init == defs = << >> /\ reg = [t \in { Builtin[k].i : k \in DOMAIN Builtin } |-> Builtin[CHOOSE k \in DOMAIN Builtin : Builtin[k].i = t].c] /\ n = 0
Define(t) == LET c == << "K1", "K2", "K3", "K4" >>[n + 1] IN
             /\ defs' = Append(defs, [i |-> t, c |-> c])
             /\ reg' = IF Mutate /\ t \in DOMAIN reg THEN reg ELSE [x \in DOMAIN reg \cup {t} |-> IF x = t THEN c ELSE reg[x]]
             /\ n' = n + 1
Next == n < MaxDefs /\ \E t \in Ids : Define(t)
Spec == Init /\ [][Next]_vars
Lookup(t) == IF t \in DOMAIN reg THEN reg[t] ELSE "Entity"
Agrees == \A t \in AllIds : Lookup(t) = ClassOf(defs, t)
Others == \A t \in AllIds : (\A k \in DOMAIN defs : defs[k].i # t) => Lookup(t) = ClassOf(<< >>, t)
Emit == (Emitting /\ n = MaxDefs) => PrintT("J " \o ToJson([defs |-> defs]))
=============================================================================
