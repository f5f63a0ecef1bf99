-------------------------------- MODULE EqVal --------------------------------
(* Equality of variables and tiles by content. Values as in VarCodec; a struct *)
(* is a mapping, so the order of its entries does not matter.                  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
RECURSIVE SameVal(_, _)
SameVal(a, b) ==
    IF a.t # b.t THEN FALSE
    ELSE IF a.t = 14
         THEN /\ Len(a.kv) = Len(b.kv)
              /\ \A i \in DOMAIN a.kv : \E j \in DOMAIN b.kv : a.kv[i].k = b.kv[j].k /\ SameVal(a.kv[i].v, b.kv[j].v)
    ELSE IF a.t = 15
         THEN a.et = b.et /\ Len(a.a) = Len(b.a) /\ \A i \in DOMAIN a.a : SameVal(a.a[i], b.a[i])
    ELSE a = b
(* a normal form: structs as sets of pairs *)
RECURSIVE Canon(_)
Canon(v) == IF v.t = 14 THEN [t |-> 14, m |-> { << v.kv[i].k, Canon(v.kv[i].v) >> : i \in DOMAIN v.kv }]
            ELSE IF v.t = 15 THEN [t |-> 15, et |-> v.et, c |-> [i \in DOMAIN v.a |-> Canon(v.a[i])]]
            ELSE v
SameTile(a, b) == a.sh = b.sh /\ a.fl = b.fl /\ a.ss = b.ss /\ a.sp = b.sp /\ a.st = b.st /\ a.e = b.e
=============================================================================
