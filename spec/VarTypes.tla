------------------------------- MODULE VarTypes -------------------------------
(* Which values a variable may hold.  A variable is [t, raw, kids]: its type,    *)
(* the class of the Python value it holds now, and the variables in it.          *)
EXTENDS Integers, Sequences, FiniteSets
Types == {1, 2, 3, 4, 5, 10, 14, 15}
Holds(t) == CASE t = 1 -> {"bool"}
              [] t = 2 -> {"int0", "intneg"}                 \* 0 .. 2^31 - 1, -2^31 .. -1
              [] t = 3 -> {"int0", "intbig"}                 \* and 2^31 .. 2^32 - 1
              [] t = 4 -> {"float"}
              [] t = 5 -> {"bytes"}
              [] t = 10 -> {"vec"}                           \* a tuple of two floats
              [] t = 14 -> {"dict"}                          \* names to variables
              [] t = 15 -> {"arr"}                           \* a type and a list of variables of that type
Raws == {"bool", "int0", "intneg", "intbig", "inthuge", "intlow", "float", "bytes", "str", "bytearray", "none", "vec", "vec1", "vec3", "vecint1", "vecint2", "veclist",
         "dict", "dictkey", "dictval", "list", "arr", "arrmix", "arrraw", "arrtype", "arrlist", "arrtuple"}
Fits(t, raw) == raw \in Holds(t)
(* a bool is an int in Python: not decided *)
Open(t, raw) == t \in {2, 3} /\ raw = "bool"
RECURSIVE WT(_), AllWT(_, _), Pre(_), PreAll(_, _)
WT(n) == Fits(n.t, n.raw) /\ AllWT(n.kids, 1)
AllWT(ks, i) == i > Len(ks) \/ (WT(ks[i]) /\ AllWT(ks, i + 1))
(* well-typedness of every variable of the tree, a variable before its parts *)
Pre(n) == << WT(n) >> \o PreAll(n.kids, 1)
PreAll(ks, i) == IF i > Len(ks) THEN << >> ELSE Pre(ks[i]) \o PreAll(ks, i + 1)
=============================================================================
