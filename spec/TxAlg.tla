------------------------------- MODULE TxAlg -------------------------------
(* Affine maps of the plane, << a, b, tx, c, d, ty >>: (x, y) -> (ax+by+tx, cx+dy+ty). *)
(* y points down, so the quarter turn (x, y) -> (-y, x) is clockwise.                  *)
EXTENDS Integers, Sequences
Id == << 1, 0, 0, 0, 1, 0 >>
HFlip == << -1, 0, 0, 0, 1, 0 >>
VFlip == << 1, 0, 0, 0, -1, 0 >>
Rot1 == << 0, -1, 0, 1, 0, 0 >>
Transl(x, y) == << 1, 0, x, 0, 1, y >>
Apply(m, v) == << m[1] * v[1] + m[2] * v[2] + m[3], m[4] * v[1] + m[5] * v[2] + m[6] >>
Linear(m, v) == << m[1] * v[1] + m[2] * v[2], m[4] * v[1] + m[5] * v[2] >>
Mul(p, q) == << p[1] * q[1] + p[2] * q[4], p[1] * q[2] + p[2] * q[5], p[1] * q[3] + p[2] * q[6] + p[3],
                p[4] * q[1] + p[5] * q[4], p[4] * q[2] + p[5] * q[5], p[4] * q[3] + p[5] * q[6] + p[6] >>
MulS(m, k) == [i \in 1..6 |-> m[i] * k]
Translate(m, x, y) == << m[1], m[2], m[3] + x, m[4], m[5], m[6] + y >>
Det(m) == m[1] * m[5] - m[2] * m[4]
RECURSIVE Pow(_, _)
Pow(m, n) == IF n = 0 THEN Id ELSE Mul(m, Pow(m, n - 1))
RotN(i) == Pow(Rot1, i % 4)
ASSUME RotN(4) = Id /\ Pow(Rot1, 4) = Id /\ Mul(HFlip, HFlip) = Id /\ Mul(VFlip, VFlip) = Id /\ Mul(HFlip, VFlip) = RotN(2)
ASSUME \A i \in 0..3 : Mul(RotN(i), RotN(4 - i)) = Id /\ Det(RotN(i)) = 1
=============================================================================
