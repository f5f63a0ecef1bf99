------------------------------- MODULE AccessMC -------------------------------
EXTENDS Access, TLC, Json
CONSTANTS MaxOps, Emitting, Mutate
VARIABLES m, m0, hist, poked, last
vars == << m, m0, hist, poked, last >>
W == [k |-> "w", t |-> 2, d |-> [t |-> 2, n |-> 5]]
A == [k |-> "a", t |-> 15, d |-> [t |-> 15, et |-> 2, a |-> << >>]]
VI(n) == [t |-> 2, n |-> n]
Str == [t |-> 5, s |-> << >>]
Refused == [t |-> -2]
Moves == { << "W", o, v >> : o \in {"get", "setback", "del"}, v \in {VI(0)} }
         \cup { << "W", "set", v >> : v \in { VI(1), VI(2), Refused } }
         \cup { << "W", "poke", Str >> }
         \cup { << "A", o, v >> : o \in {"get", "setback", "del"}, v \in {VI(0)} }
         \cup { << "A", "set", v >> : v \in { [t |-> 15, et |-> 2, a |-> << VI(7) >>], Refused } }
         \cup { << "A", "append", v >> : v \in { VI(1), Refused } }
         \cup { << "A", "poke", VI(3) >> }
Row(x) == IF x = "W" THEN W ELSE A
Init == m = [k \in {} |-> NoVal] /\ m0 = m /\ hist = << >> /\ poked = {} /\ last = Out(TRUE, "", NoVal, {})
Next == /\ Len(hist) < MaxOps
        /\ \E mv \in Moves :
              LET r == Row(mv[1])
                  o == Apply(m, r, mv[2], mv[3])
              IN  /\ last' = o
                  /\ \E n \in o.ms : m' = IF Mutate /\ mv[2] = "set" /\ ~o.ok THEN With(m, r.k, Str) ELSE n
                  /\ m0' = m
                  /\ hist' = Append(hist, [o |-> mv[1], op |-> mv[2], v |-> mv[3]])
                  /\ poked' = IF mv[2] = "poke" THEN poked \cup {r.k} ELSE IF mv[2] \in {"set", "del"} /\ o.ok THEN poked \ {r.k} ELSE poked
Spec == Init /\ [][Next]_vars
(* only the variable behind the accessor used can change *)
Frame == hist # << >> => \A k \in {"w", "a"} : k # Row(hist[Len(hist)].o).k => (k \in DOMAIN m) = (k \in DOMAIN m0) /\ (k \in DOMAIN m => m[k] = m0[k])
(* a refused operation changes nothing a reader can see *)
Seen(x, r) == IF Foreign(x, r) THEN Str ELSE Value(x, r)
Refusals == (hist # << >> /\ ~last.ok) => Seen(m, W) = Seen(m0, W) /\ Seen(m, A) = Seen(m0, A)
(* variables have the declared type unless something else was put there *)
Typed == \A r \in {W, A} : r.k \in DOMAIN m /\ r.k \notin poked => m[r.k].t = r.t
ReadBack == \A r \in {W, A} : ~Foreign(m, r) => Apply(m, r, "get", NoVal).ret = Value(m, r)
Emit == (Emitting /\ Len(hist) = MaxOps) => PrintT("J " \o ToJson([hist |-> hist]))
=============================================================================
