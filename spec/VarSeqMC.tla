------------------------------- MODULE VarSeqMC -------------------------------
(* The boxed list (a sequence of typed boxes) next to the plain sequence it is *)
(* a view of. Only get, set, insert, delete and length touch the boxes; every  *)
(* other operation is made of these, one step at a time.                       *)
EXTENDS VarSeq, TLC, Json
CONSTANTS ET, WRONGT, Values, MaxLen, MaxOps, Emitting, Mutate
VARIABLES boxes, plain, hist, n
vars == << boxes, plain, hist, n >>
Box(v) == [t |-> ET, x |-> v]
BGet(b, i) == Got(b, i).x
BSet(b, i, v) == IF Mutate THEN Put(b, i, [t |-> WRONGT, x |-> v]) ELSE Put(b, i, Box(v))
BIns(b, i, v) == Ins(b, i, Box(v))
BDel(b, i) == Without(b, i)
RECURSIVE BRev(_, _)
BRev(b, i) == LET m == Len(b) IN
              IF i >= m \div 2 THEN b
              ELSE LET x == BGet(b, i)  y == BGet(b, m - i - 1) IN BRev(BSet(BSet(b, i, y), m - i - 1, x), i + 1)
RECURSIVE BExt(_, _)
BExt(b, vs) == IF vs = << >> THEN b ELSE BExt(BIns(b, Len(b), vs[1]), Tail(vs))
RECURSIVE BIndex(_, _, _)
BIndex(b, v, i) == IF i >= Len(b) THEN -1 ELSE IF BGet(b, i) = v THEN i ELSE BIndex(b, v, i + 1)
RECURSIVE BClear(_)
BClear(b) == IF b = << >> THEN b ELSE BClear(BDel(b, -1))

Op(name, i, v) == [op |-> name, i |-> i, v |-> v]
Do(h, b, p) == boxes' = b /\ plain' = p /\ hist' = Append(hist, h) /\ n' = n + 1
Ix == (-(MaxLen + 1))..(MaxLen + 1)
Init == boxes = << >> /\ plain = << >> /\ hist = << >> /\ n = 0
Next ==
    /\ n < MaxOps
    /\ \/ \E i \in Ix, v \in Values : Len(plain) < MaxLen /\ Do(Op("insert", i, v), BIns(boxes, i, v), Ins(plain, i, v))
       \/ \E v \in Values : Len(plain) < MaxLen /\ Do(Op("append", 0, v), BIns(boxes, Len(boxes), v), Append(plain, v))
       \/ \E i \in Ix, v \in Values : InRange(i, Len(plain)) /\ Do(Op("set", i, v), BSet(boxes, i, v), Put(plain, i, v))
       \/ \E i \in Ix : InRange(i, Len(plain)) /\ Do(Op("del", i, 0), BDel(boxes, i), Without(plain, i))
       \/ \E i \in Ix : InRange(i, Len(plain)) /\ Do(Op("pop", i, 0), BDel(boxes, i), Without(plain, i))
       \/ \E v \in Values : In(plain, v) /\ Do(Op("remove", 0, v), BDel(boxes, BIndex(boxes, v, 0)), Without(plain, First(plain, v)))
       \/ Do(Op("reverse", 0, 0), BRev(boxes, 0), Rev(plain))
       \/ Len(plain) * 2 <= MaxLen /\ Do(Op("double", 0, 0), BExt(boxes, [i \in DOMAIN boxes |-> boxes[i].x]), plain \o plain)
       \/ Do(Op("clear", 0, 0), BClear(boxes), << >>)
Spec == Init /\ [][Next]_vars
(* what the boxes hold is the sequence, and every box has the declared type *)
View == Len(boxes) = Len(plain) /\ \A i \in DOMAIN plain : boxes[i].x = plain[i]
Typed == \A i \in DOMAIN boxes : boxes[i].t = ET
Reads == \A i \in Ix : InRange(i, Len(plain)) => BGet(boxes, i) = plain[Norm(i, Len(plain)) + 1]
Emit == (Emitting /\ n = MaxOps) => PrintT("J " \o ToJson([hist |-> hist]))
=============================================================================
