------------------------------- MODULE JsonDoc -------------------------------
(* The JSON view of variables: a variable tree is described by a schema (the   *)
(* types) and a document (the values). Variables are the records of VarCodec.  *)
EXTENDS VarCodec

RANGE(f) == { f[x] : x \in DOMAIN f }
LeafName(t) == CASE t = TBOOL -> "bool" [] t = TINT -> "int" [] t = TUINT -> "uint"
                 [] t = TFLOAT -> "float" [] t = TSTR -> "string" [] t = TVEC2 -> "vec2"
LeafTypes == { TBOOL, TINT, TUINT, TFLOAT, TSTR, TVEC2 }

(* schemas *)
SErr == [s |-> "err"]
SAny == [s |-> "any"]                      \* element schema of an array of arrays without elements
SLeaf(t) == [s |-> LeafName(t)]
SList(e) == [s |-> "list", e |-> e]
SDict(m) == [s |-> "dict", m |-> m]        \* m: sequence of [k, v], keys distinct
IsLeafSchema(x) == x.s \in { LeafName(t) : t \in LeafTypes }

HasK(m, k) == \E i \in DOMAIN m : m[i].k = k
AtK(m, k) == m[CHOOSE i \in DOMAIN m : m[i].k = k].v

RECURSIVE Merge(_, _), MergeInto(_, _, _), HasErr(_)
HasErr(x) == CASE x.s = "err" -> TRUE
               [] x.s = "list" -> HasErr(x.e)
               [] x.s = "dict" -> \E i \in DOMAIN x.m : HasErr(x.m[i].v)
               [] OTHER -> FALSE
Merge(a, b) ==
    IF a.s = "err" \/ b.s = "err" THEN SErr
    ELSE IF a.s = "dict" /\ b.s = "dict" THEN SDict(MergeInto(a.m, b.m, 1))
    ELSE IF a.s = "any" /\ b.s \in {"any", "list"} THEN b
    ELSE IF b.s = "any" /\ a.s = "list" THEN a
    ELSE IF a.s = "list" /\ b.s = "list" THEN SList(Merge(a.e, b.e))
    ELSE IF a.s = b.s /\ IsLeafSchema(a) THEN a
    ELSE SErr
MergeInto(m, n, i) ==
    IF i > Len(n) THEN m
    ELSE LET k == n[i].k IN
         MergeInto(IF HasK(m, k) THEN [j \in DOMAIN m |-> IF m[j].k = k THEN [k |-> k, v |-> Merge(m[j].v, n[i].v)] ELSE m[j]]
                   ELSE Append(m, n[i]), n, i + 1)

RECURSIVE SchemaOf(_), SchemaFold(_, _, _)
SchemaOf(v) ==
    IF v.t = TSTRUCT THEN SDict([i \in DOMAIN v.kv |-> [k |-> v.kv[i].k, v |-> SchemaOf(v.kv[i].v)]])
    ELSE IF v.t = TARRAY
    THEN SList(SchemaFold(IF v.et = TARRAY THEN SAny ELSE IF v.et = TSTRUCT THEN SDict(<< >>) ELSE SLeaf(v.et), v.a, 1))
    ELSE SLeaf(v.t)
SchemaFold(s, a, i) == IF i > Len(a) THEN s ELSE SchemaFold(Merge(s, SchemaOf(a[i])), a, i + 1)

(* documents *)
DBool(b) == [j |-> "b", b |-> b]
DInt(neg, n) == [j |-> "n", neg |-> neg, n |-> n]          \* n: 32-bit pattern
DFix(i, f) == [j |-> "f", i |-> i, f |-> f]
DStr(s) == [j |-> "s", s |-> s]
DArr(a) == [j |-> "a", a |-> a]
DObj(kv) == [j |-> "o", kv |-> kv]
RECURSIVE DocOf(_)
DocOf(v) ==
    CASE v.t = TBOOL -> DBool(v.b)
      [] v.t = TINT -> DInt(v.n < 0, v.n)
      [] v.t = TUINT -> DInt(FALSE, v.n)
      [] v.t = TFLOAT -> DFix(v.i, v.f)
      [] v.t = TSTR -> DStr(v.s)
      [] v.t = TVEC2 -> DArr(<< DFix(v.xi, v.xf), DFix(v.yi, v.yf) >>)
      [] v.t = TSTRUCT -> DObj([i \in DOMAIN v.kv |-> [k |-> v.kv[i].k, v |-> DocOf(v.kv[i].v)]])
      [] v.t = TARRAY -> DArr([i \in DOMAIN v.a |-> DocOf(v.a[i])])

(* the variable a document denotes under a schema *)
SchemaType(s) == IF s.s \in {"list", "any"} THEN TARRAY ELSE IF s.s = "dict" THEN TSTRUCT
                 ELSE CHOOSE t \in LeafTypes : LeafName(t) = s.s
RECURSIVE Value(_, _)
Value(s, d) ==
    CASE s.s = "bool" -> [t |-> TBOOL, b |-> d.b]
      [] s.s = "int" -> [t |-> TINT, n |-> d.n]
      [] s.s = "uint" -> [t |-> TUINT, n |-> d.n]
      [] s.s = "float" -> [t |-> TFLOAT, i |-> d.i, f |-> d.f]
      [] s.s = "string" -> [t |-> TSTR, s |-> d.s]
      [] s.s = "vec2" -> [t |-> TVEC2, xi |-> d.a[1].i, xf |-> d.a[1].f, yi |-> d.a[2].i, yf |-> d.a[2].f]
      [] s.s = "dict" -> [t |-> TSTRUCT, kv |-> [i \in DOMAIN d.kv |-> [k |-> d.kv[i].k, v |-> Value(AtK(s.m, d.kv[i].k), d.kv[i].v)]]]
      [] s.s = "list" -> [t |-> TARRAY, et |-> SchemaType(s.e), a |-> [i \in DOMAIN d.a |-> Value(s.e, d.a[i])]]

(* Declaratively: what is known about the type of each place of the tree. All  *)
(* elements of an array share their places, so a tree can be described by one  *)
(* schema iff no place has two types.                                          *)
RECURSIVE Places(_, _)
Places(v, p) ==
    { << p, v.t >> } \cup
    IF v.t = TSTRUCT THEN UNION { Places(v.kv[i].v, Append(p, v.kv[i].k)) : i \in DOMAIN v.kv }
    ELSE IF v.t = TARRAY THEN { << Append(p, << 0 >>), v.et >> } \cup UNION { Places(v.a[i], Append(p, << 0 >>)) : i \in DOMAIN v.a }
    ELSE {}
Describable(v) == \A x, y \in Places(v, << >>) : x[1] = y[1] => x[2] = y[2]

(* equality that does not care about the order of keys *)
RECURSIVE Same(_, _)
Same(a, b) ==
    a.t = b.t /\
    CASE a.t = TSTRUCT -> Len(a.kv) = Len(b.kv) /\ \A i \in DOMAIN a.kv : HasK(b.kv, a.kv[i].k) /\ Same(a.kv[i].v, AtK(b.kv, a.kv[i].k))
      [] a.t = TARRAY -> a.et = b.et /\ Len(a.a) = Len(b.a) /\ \A i \in DOMAIN a.a : Same(a.a[i], b.a[i])
      [] OTHER -> a = b
(* ... and with the keys in the same order *)
RECURSIVE SameOrder(_, _)
SameOrder(a, b) ==       \* of trees that are Same
    CASE a.t = TSTRUCT -> \A i \in DOMAIN a.kv : a.kv[i].k = b.kv[i].k /\ SameOrder(a.kv[i].v, b.kv[i].v)
      [] a.t = TARRAY -> \A i \in DOMAIN a.a : SameOrder(a.a[i], b.a[i])
      [] OTHER -> TRUE
RECURSIVE SameSchema(_, _)
SameSchema(a, b) ==
    a.s = b.s /\
    CASE a.s = "dict" -> Len(a.m) = Len(b.m) /\ \A i \in DOMAIN a.m : HasK(b.m, a.m[i].k) /\ SameSchema(a.m[i].v, AtK(b.m, a.m[i].k))
      [] a.s = "list" -> SameSchema(a.e, b.e)
      [] OTHER -> TRUE
RECURSIVE SameDoc(_, _)
SameDoc(a, b) ==
    a.j = b.j /\
    CASE a.j = "o" -> Len(a.kv) = Len(b.kv) /\ \A i \in DOMAIN a.kv : HasK(b.kv, a.kv[i].k) /\ SameDoc(a.kv[i].v, AtK(b.kv, a.kv[i].k))
      [] a.j = "a" -> Len(a.a) = Len(b.a) /\ \A i \in DOMAIN a.a : SameDoc(a.a[i], b.a[i])
      [] OTHER -> a = b

(* well-formed: schema covers the document *)
RECURSIVE Covers(_, _)
Covers(s, d) ==
    CASE s.s = "dict" -> d.j = "o" /\ \A i \in DOMAIN d.kv : HasK(s.m, d.kv[i].k) /\ Covers(AtK(s.m, d.kv[i].k), d.kv[i].v)
      [] s.s = "list" -> d.j = "a" /\ \A i \in DOMAIN d.a : Covers(s.e, d.a[i])
      [] s.s = "any" -> FALSE
      [] s.s = "bool" -> d.j = "b"
      [] s.s = "int" -> d.j = "n"
      [] s.s = "uint" -> d.j = "n" /\ ~d.neg
      [] s.s = "float" -> d.j = "f"
      [] s.s = "string" -> d.j = "s"
      [] s.s = "vec2" -> d.j = "a" /\ Len(d.a) = 2 /\ d.a[1].j = "f" /\ d.a[2].j = "f"
      [] OTHER -> FALSE
=============================================================================
