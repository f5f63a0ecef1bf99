------------------------------ MODULE TxAlgMC ------------------------------
(* Every pair of small matrices: products are composition.                      *)
EXTENDS TxAlg
CONSTANTS LIN, OFF, Mutate
VARIABLES p, q
(* the sets are given shifted by 3: a configuration file has no negative numbers *)
Mats == {<< a - 3, b - 3, x - 3, c - 3, d - 3, y - 3 >> : a, b, c, d \in LIN, x, y \in OFF}
Init == p \in Mats /\ q = Id
Next == q = Id /\ q' \in Mats /\ p' = p
M(u, w) == IF Mutate THEN [Mul(u, w) EXCEPT ![6] = u[4] * w[3] + u[5] * w[6] + u[3]] ELSE Mul(u, w)
Pts == {<< 0, 0 >>, << 1, 0 >>, << 0, 1 >>, << 2, -3 >>}
Composes == \A v \in Pts : Apply(M(p, q), v) = Apply(p, Apply(q, v))
Neutral == Mul(p, Id) = p /\ Mul(Id, p) = p
TranslateIsProduct == Translate(p, 3, -5) = Mul(Transl(3, -5), p)
ScalarScales == \A v \in Pts : \A k \in {-1, 0, 2} : Apply(MulS(p, k), v) = << k * Apply(p, v)[1], k * Apply(p, v)[2] >>
DetMult == Det(Mul(p, q)) = Det(p) * Det(q)
=============================================================================
