------------------------------- MODULE NamesMC -------------------------------
(* The tables are consistent with the symmetries of the square: the n-th side   *)
(* of a slanted shape is carried to the n-th side of its image, and the names    *)
(* BIG_i, SMALL_i and HALF_x are ordered by rotations.                           *)
EXTENDS Names, Json
CONSTANTS DEPTH, Mutate
VARIABLES sh, g, n
vars == << sh, g, n >>
Rot == << 0, -1, 1, 0 >>
Init == sh \in Shapes /\ g = << 1, 0, 0, 1 >> /\ n = 0
Next == n < DEPTH /\ n' = n + 1 /\ sh' = sh /\ \E h \in Sym : g' = SymMul(h, g)
Spec == Init /\ [][Next]_vars
Ord(x) == IF Mutate /\ x = 12 THEN << Opp(Diagonal(x)), Diagonal(x) >> ELSE OrderedSides(x)
Complete == { Ord(sh)[i] : i \in DOMAIN Ord(sh) } = EdgesOn(sh) /\ Len(Ord(sh)) = Cardinality(EdgesOn(sh))
Slanted == sh \in 1..16
Carried == Slanted => \A i \in DOMAIN Ord(sh) : SideImage(sh, g, Ord(sh)[i]) = Ord(ShapeImage(sh, g))[i]
(* half tiles: rotations keep the cyclic order, reflections reverse it *)
Halves == sh \in 17..20 => LET o == Ord(sh)
                               p == Ord(ShapeImage(sh, g))
                           IN  IF SymDet(g) > 0 THEN \A i \in 1..3 : SideImage(sh, g, o[i]) = p[i]
                               ELSE SideImage(sh, g, o[1]) = p[1] /\ SideImage(sh, g, o[2]) = p[3] /\ SideImage(sh, g, o[3]) = p[2]
Families == /\ sh \in 1..8 => ShapeImage(sh, Rot) = 1 + ((sh - 1 + 2) % 8)
            /\ sh \in 17..20 => ShapeImage(sh, Rot) = 17 + ((sh - 17 + 1) % 4)
Vertical == \A s \in 0..3 : sh \in 17..20 /\ s \in EdgesOn(sh) /\ s \in {2, 3} => ~Slope(sh, s)   \* half slopes are tops or bottoms
Inv == Complete /\ Carried /\ Halves /\ Families /\ Vertical
=============================================================================
