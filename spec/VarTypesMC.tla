------------------------------ MODULE VarTypesMC ------------------------------
(* A struct holding an array of structs and a leaf; values are put out of and    *)
(* back into their types in any order.  A check that goes all the way down       *)
(* against what is wrong anywhere below.                                         *)
EXTENDS VarTypes, TLC, Json
CONSTANTS MaxOps, Emitting, Mutate
VARIABLES bad, hist
vars == << bad, hist >>
(* 1 root struct: 2 array of (3 struct: 4 leaf) (5 struct: 6 leaf), 7 leaf *)
Nodes == 1..7
Below == << 1..7, 2..6, 3..4, {4}, 5..6, {6}, {7} >>
Kids == << << 2, 7 >>, << 3, 5 >>, << 4 >>, << >>, << 6 >>, << >>, << >> >>
Ty(n) == << 14, 15, 14, 2, 14, 2, 5 >>[n]
Good(n) == << "dict", "arr", "dict", "int0", "dict", "int0", "bytes" >>[n]
RECURSIVE Tree(_)
Tree(n) == [t |-> Ty(n), raw |-> IF n \in bad THEN "none" ELSE Good(n),
            kids |-> IF n \in bad THEN << >> ELSE [i \in DOMAIN Kids[n] |-> Tree(Kids[n][i])]]
RECURSIVE Reach(_)
Reach(n) == {n} \cup (IF n \in bad THEN {} ELSE UNION { Reach(Kids[n][i]) : i \in DOMAIN Kids[n] })
Init == bad = {} /\ hist = << >>
Do(op, n) == hist' = Append(hist, [op |-> op, n |-> n])
Poke(n) == n \notin bad /\ n \in Reach(1) /\ bad' = bad \cup {n} /\ Do("poke", n)
Mend(n) == n \in bad /\ n \in Reach(1) /\ bad' = bad \ {n} /\ Do("mend", n)
Next == Len(hist) < MaxOps /\ \E n \in Nodes : Poke(n) \/ Mend(n)
Spec == Init /\ [][Next]_vars
Shallow(x) == Fits(x.t, x.raw) /\ \A i \in DOMAIN x.kids : Fits(x.kids[i].t, x.kids[i].raw)
Check(x) == IF Mutate THEN Shallow(x) ELSE WT(x)
Deep == \A n \in Reach(1) : Check(Tree(n)) <=> (Reach(n) \cap bad = {})
Order == Len(Pre(Tree(1))) = Cardinality(Reach(1))
Emit == (Emitting /\ Len(hist) = MaxOps) => PrintT("J " \o ToJson([hist |-> hist]))
ASSUME \A t \in Types : \E r \in Raws : Fits(t, r)
=============================================================================
