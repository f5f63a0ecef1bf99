----------------------------- MODULE EdgeRulesMC -----------------------------
(* Every small tiling over the given shapes: a tile and up to three cells around *)
(* one of its corners.                                                           *)
EXTENDS EdgeRules, Json
CONSTANTS CENTER, AROUND, LOOKS, FILTH, Mutate        \* AROUND: shapes, 99 = no tile
VARIABLES T, step
vars == << T, step >>
E0(f) == << 0, 0, 0, 0, 0, 0, f, 0, 0, 0, 0, 0 >>
Mk(sh, look, f) == [sh |-> sh, look |-> look, e |-> [i \in 1..4 |-> IF HasEdge(sh, i - 1) THEN E0(f) ELSE Blank]]
Put(F, c, sh, look, f) == IF sh = 99 THEN F ELSE (c :> Mk(sh, look, f)) @@ F
Init == /\ step = 0
        /\ \E a \in CENTER, b, d, e \in AROUND, la \in LOOKS, f \in FILTH :
              T = Put(Put(Put(Put([x \in {} |-> 0], << 19, 0, 0 >>, a, 0, 1), << 19, -1, 0 >>, b, 0, f), << 19, -1, -1 >>, d, 0, 1), << 19, 0, -1 >>, e, la, f)
Ask(U, c, s) == DefaultVisible(U, c, s)
BadCaps(U) == IF ~ Mutate THEN Caps(U) ELSE [c \in DOMAIN U |-> [CapTile(U, c) EXCEPT !.e = [i \in 1..4 |-> [@[i] EXCEPT ![5] = -@]]]]
Next == \/ step = 0 /\ T' = Visibility(T, Ask) /\ step' = 1
        \/ step = 1 /\ T' = BadCaps(T) /\ step' = 2
Spec == Init /\ [][Next]_vars
SolidIsVisible == step >= 1 => \A c \in DOMAIN T : \A s \in 1..4 : T[c].e[s][1] = 1 => T[c].e[s][2] = 1
NoDoubleWalls == step >= 1 => \A c \in DOMAIN T : \A s \in 0..3 :
    Shared(T, c, s) => T[c].e[s + 1][1] = 0 /\ T[Beside(c, s)].e[Opposite(s) + 1][1] = 0
                       /\ T[c].e[s + 1][2] + T[Beside(c, s)].e[Opposite(s) + 1][2] <= 1
(* the outline of the union is solid: every edge not shared *)
OutlineSolid == step >= 1 => \A c \in DOMAIN T : \A s \in EdgesOn(T[c].sh) : ~ Shared(T, c, s) => T[c].e[s + 1][1] = 1
Stable == /\ step = 1 => Visibility(T, Ask) = T
          /\ step = 2 /\ ~ Mutate => Caps(T) = T
OneJoiner == step = 1 => \A c \in DOMAIN T : \A s \in EdgesOn(T[c].sh) : \A k \in 0..1 :
    \A d, o \in Joiners(T, c, s, k) : TurnTo(T, c, s, k, d) = TurnTo(T, c, s, k, o) => d = o
CapOrJoin == step = 2 => \A c \in DOMAIN T : \A s \in EdgesOn(T[c].sh) : \A k \in 0..1 :
    Seen(T[c], s) => /\ (T[c].e[s + 1][3 + k] = 1 => T[c].e[s + 1][5 + k] = 0)
                     /\ AbsZ(T[c].e[s + 1][5 + k]) < 90
(* left-right and top-bottom mirror images get mirrored data *)
Mirrored == step = 2 => \A g \in {<< -1, 0, 0, 1 >>, << 1, 0, 0, -1 >>} : SameTiling(BadCaps(MirrorTiling(T, g)), MirrorTiling(T, g))
Emit == IF step = 0 THEN PrintT("J " \o ToJson({<< c, T[c].sh, T[c].look, T[c].e[1 + CHOOSE s \in EdgesOn(T[c].sh) : TRUE][7] >> : c \in DOMAIN T})) ELSE TRUE
=============================================================================
