------------------------------- MODULE EqValMC -------------------------------
(* Pointwise equality is an equivalence, agrees with equality of the normal    *)
(* form, and a hash that is built like the variables (type, then content;      *)
(* structs without regard to order) is a function of the equivalence class.    *)
EXTENDS EqVal, TLC, Json
CONSTANTS Deep, Emitting, Mutate
VARIABLES a, b, c
vars == << a, b, c >>
I(n) == [t |-> 2, n |-> n]
U(n) == [t |-> 3, n |-> n]
B(x) == [t |-> 1, b |-> x]
S(x) == [t |-> 5, s |-> x]
F(n) == [t |-> 4, i |-> n, f |-> 0]
Leaves == { I(0), I(1), U(0), U(1), B(TRUE), B(FALSE), F(0), F(1), S(<< >>), S(<< 49 >>), [t |-> 10, xi |-> 0, xf |-> 0, yi |-> 1, yf |-> 0] }
Few == { I(0), I(1), U(0) }
Arr(t, x) == [t |-> 15, et |-> t, a |-> x]
Arrays == { Arr(t, << >>) : t \in {2, 3, 15} } \cup { Arr(2, << I(x) >>) : x \in {0, 1} } \cup { Arr(2, << I(0), I(1) >>), Arr(2, << I(1), I(0) >>), Arr(3, << U(0) >>) }
E1(k, v) == << [k |-> << k >>, v |-> v] >>
Structs == { [t |-> 14, kv |-> << >>] }
           \cup { [t |-> 14, kv |-> E1(k, v)] : k \in {120, 121}, v \in Few }
           \cup { [t |-> 14, kv |-> E1(120, v) \o E1(121, w)] : v \in Few, w \in Few }
           \cup { [t |-> 14, kv |-> E1(121, v) \o E1(120, w)] : v \in Few, w \in Few }
Nested == IF ~Deep THEN {}
          ELSE { Arr(14, << s >>) : s \in Structs } \cup { Arr(15, << x >>) : x \in Arrays } \cup { [t |-> 14, kv |-> E1(120, s)] : s \in Structs \cup Arrays }
Univ == Leaves \cup Arrays \cup Structs \cup Nested
Init == a \in Univ /\ b \in Univ /\ c \in (IF Emitting THEN {I(0)} ELSE Univ)
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Same(x, y) == IF Mutate /\ x.t = 15 /\ y.t = 15 THEN Len(x.a) = Len(y.a) ELSE SameVal(x, y)
RECURSIVE Hash(_)
RECURSIVE HashKv(_, _)
HashKv(kv, i) == IF i > Len(kv) THEN 0 ELSE (kv[i].k[1] * 7 + Hash(kv[i].v) * 31 + HashKv(kv, i + 1)) % 9973
RECURSIVE HashSeq(_, _)
HashSeq(s, i) == IF i > Len(s) THEN 1 ELSE (Hash(s[i]) + 131 * HashSeq(s, i + 1)) % 9973
Hash(v) == CASE v.t = 14 -> (14 + HashKv(v.kv, 1)) % 9973
             [] v.t = 15 -> (15 + 17 * v.et + 19 * HashSeq(v.a, 1)) % 9973
             [] v.t \in {2, 3} -> (100 * v.t + v.n) % 9973
             [] OTHER -> v.t
Reflexive == Same(a, a)
Symmetric == Same(a, b) = Same(b, a)
Transitive == Same(a, b) /\ Same(b, c) => Same(a, c)
Normal == Same(a, b) = (Canon(a) = Canon(b))
HashAgrees == Same(a, b) => Hash(a) = Hash(b)
Emit == Emitting => PrintT("J " \o ToJson([a |-> a, b |-> b]))
=============================================================================
