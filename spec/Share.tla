-------------------------------- MODULE Share --------------------------------
(* Independence of objects.  A history runs on a population of objects; an     *)
(* object has named parts.  What an operation may change:                      *)
(*   "none"  nothing            "only"  parts of object e.o                    *)
(*   "part"  part e.p of object e.o                                            *)
(*   "new"   object e.o appears ("like": with the content of object e.like)    *)
EXTENDS Integers, Sequences, FiniteSets
Keys(c) == DOMAIN c
(* old and new are functions from << object, part >> to contents *)
Others(old, new, mine(_)) == /\ \A k \in Keys(old) : ~mine(k) => k \in Keys(new) /\ new[k] = old[k]
                             /\ \A k \in Keys(new) : ~mine(k) => k \in Keys(old)
Allowed(e, old, new) ==
    CASE e.may = "none" -> Others(old, new, LAMBDA k : FALSE)
      [] e.may \in {"only", "new"} -> Others(old, new, LAMBDA k : k[1] = e.o)
      [] e.may = "part" -> Others(old, new, LAMBDA k : k = << e.o, e.p >>)
Fresh(e, old) == e.may = "new" => \A k \in Keys(old) : k[1] # e.o
Alike(e, old, new) == e.like = "" \/ (/\ \A k \in Keys(old) : k[1] = e.like => << e.o, k[2] >> \in Keys(new) /\ new[<< e.o, k[2] >>] = old[k]
                                      /\ \A k \in Keys(new) : k[1] = e.o => << e.like, k[2] >> \in Keys(old))
=============================================================================
