------------------------------ MODULE TxTrace ------------------------------
(* Judges recorded matrix operations (C14).  Matrices and points in quarters,   *)
(* products in sixteenths, samples of products in sixty-fourths.                 *)
EXTENDS TxAlg, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Clause(n, ok) == IF ok THEN {} ELSE {n}
(* exact products of quarter matrices, in sixteenths; offsets of the left operand scaled to match *)
Mul16(p, q) == << p[1] * q[1] + p[2] * q[4], p[1] * q[2] + p[2] * q[5], p[1] * q[3] + p[2] * q[6] + 4 * p[3],
                  p[4] * q[1] + p[5] * q[4], p[4] * q[2] + p[5] * q[5], p[4] * q[3] + p[5] * q[6] + 4 * p[6] >>
Apply16(m, v) == << m[1] * v[1] + m[2] * v[2] + 4 * m[3], m[4] * v[1] + m[5] * v[2] + 4 * m[6] >>
Apply64(m16, v) == << m16[1] * v[1] + m16[2] * v[2] + 4 * m16[3], m16[4] * v[1] + m16[5] * v[2] + 4 * m16[6] >>
AbsI(x) == IF x < 0 THEN -x ELSE x
FailsPair(e) ==
    LET d == Det(e.p) IN        \* in sixteenths
    IF e.out # "ok" THEN {"tx-outcome"}
    ELSE Clause("tx-product", e.prod = Mul16(e.p, e.q))
         \cup Clause("tx-sample", e.qv = Apply16(e.q, e.v))
         \cup Clause("tx-sample-linear", e.qlin = Linear(e.q, e.v))
         \cup Clause("tx-composition", e.pqv = Apply64(Mul16(e.p, e.q), e.v) /\ e.pofqv = e.pqv)
         \cup Clause("tx-translate", e.tr = [i \in 1..6 |-> e.p[i] + (IF i = 3 THEN e.v[1] ELSE IF i = 6 THEN e.v[2] ELSE 0)] /\ e.trmul = [i \in 1..6 |-> 4 * e.tr[i]])
         \cup Clause("tx-scalar", e.sc = MulS(e.p, e.k) /\ e.rsc = e.sc)
         \cup Clause("tx-identity", e.pid = [i \in 1..6 |-> 4 * e.p[i]] /\ e.idp = e.pid)
         \cup Clause("tx-determinant", e.det = d)
         \cup Clause("tx-flipped", e.flipped = (d < 0))
         \cup Clause("tx-scale", AbsI(e.scale * e.scale - AbsI(d) * 4096) <= 2 * e.scale + 2)
         \cup Clause("tx-immutable", e.p2 = e.p /\ e.q2 = e.q)
(* linear maps in units of 1/D for any power of two D: results in units of 1/D^2 *)
FailsSmall(e) ==
    LET d == Det(e.p) IN
    IF e.out # "ok" THEN {"tx-outcome"}
    ELSE Clause("tx-product", e.prod = << e.p[1] * e.q[1] + e.p[2] * e.q[4], e.p[1] * e.q[2] + e.p[2] * e.q[5], 0,
                                          e.p[4] * e.q[1] + e.p[5] * e.q[4], e.p[4] * e.q[2] + e.p[5] * e.q[5], 0 >>)
         \cup Clause("tx-sample", e.qlin = << e.q[1] * e.v[1] + e.q[2] * e.v[2], e.q[4] * e.v[1] + e.q[5] * e.v[2] >>)
         \cup Clause("tx-determinant", e.det = d)
         \cup Clause("tx-flipped", e.flipped = (d < 0))
         \cup Clause("tx-scale", AbsI(e.scale * e.scale - AbsI(d) * 256) <= 2 * e.scale + 2)
FailsConst(e) ==
    IF e.out # "ok" THEN {"tx-outcome"}
    ELSE Clause("tx-identity-constant", e.id4 = MulS(Id, 4))
    \cup Clause("tx-hflip-constant", e.h4 = MulS(HFlip, 4)) \cup Clause("tx-vflip-constant", e.v4 = MulS(VFlip, 4))
    \cup Clause("tx-rotate-constants", Len(e.rot4) = 4 /\ \A i \in 1..4 : e.rot4[i] = MulS(RotN(i - 1), 4))
(* a word in the generators: the product is the element of the group *)
Gen(g) == CASE g = "H" -> HFlip [] g = "V" -> VFlip [] g = "0" -> Id [] g = "1" -> RotN(1) [] g = "2" -> RotN(2) [] g = "3" -> RotN(3)
RECURSIVE Word(_, _)
Word(w, i) == IF i > Len(w) THEN Id ELSE Mul(Word(w, i + 1), Gen(w[i]))
FailsWord(e) == IF e.out # "ok" THEN {"tx-outcome"} ELSE Clause("tx-group", e.m4 = MulS(Word(e.word, 1), 4))
Fails(e) == CASE e.op = "pair" -> FailsPair(e) [] e.op = "small" -> FailsSmall(e) [] e.op = "const" -> FailsConst(e) [] e.op = "word" -> FailsWord(e)
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
