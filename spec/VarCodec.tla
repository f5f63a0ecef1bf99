------------------------------- MODULE VarCodec -------------------------------
(* The Dustforce variable encoding.                                             *)
(*                                                                              *)
(* Abstract values (field names differ per type so that values of different     *)
(* types are simply unequal):                                                   *)
(*   [t |-> 1, b]        bool          [t |-> 2, n]   int (signed 32)            *)
(*   [t |-> 3, n]        uint (as its signed 32-bit pattern)                     *)
(*   [t |-> 4, i, f]     float i + f * 2^-31, i = floor, f in 0..2^31-1          *)
(*   [t |-> 5, s]        byte string   [t |-> 10, xi, xf, yi, yf]  vec2          *)
(*   [t |-> 14, kv]      struct: sequence of [k |-> char codes, v |-> value]     *)
(*   [t |-> 15, et, a]   array: element type code and sequence of values         *)
EXTENDS Bits
CONSTANT MAXW                \* longest string part, 65535 in the format

TNULL == 0  TBOOL == 1  TINT == 2  TUINT == 3  TFLOAT == 4  TSTR == 5  TVEC2 == 10  TSTRUCT == 14  TARRAY == 15
VarTypes == {TBOOL, TINT, TUINT, TFLOAT, TSTR, TVEC2, TSTRUCT, TARRAY}

(* ---------------- 6-bit text ---------------- *)
CharCode(c) == IF c >= 48 /\ c <= 57 THEN c - 48             \* 0-9
               ELSE IF c >= 65 /\ c <= 90 THEN c - 55         \* A-Z
               ELSE IF c = 95 THEN 36                          \* _
               ELSE IF c >= 97 /\ c <= 122 THEN c - 60         \* a-z
               ELSE IF c = 123 THEN 63                         \* {
               ELSE -1
CodeChar(v) == IF v < 10 THEN v + 48 ELSE IF v < 36 THEN v + 55 ELSE IF v = 36 THEN 95
               ELSE IF v < 63 THEN v + 60 ELSE 123
ValidText(k) == Len(k) <= 63 /\ \A i \in 1..Len(k) : CharCode(k[i]) # -1
EncText(k) == EncU(6, Len(k)) \o [i \in 1..(6 * Len(k)) |-> (CharCode(k[((i - 1) \div 6) + 1]) \div P2((i - 1) % 6)) % 2]

(* ---------------- fixed point ---------------- *)
(* sign, floor magnitude in ib-1 bits, fraction in fb bits of which the top one is 0 *)
EncFix(ib, fb, i, f) == << IF i < 0 THEN 1 ELSE 0 >> \o EncU(ib - 1, AbsOf(i)) \o EncU(fb, f)

(* ---------------- encoder ---------------- *)
NParts(n) == 1 + (n \div MAXW)
Part(s, j) == SubSeq(s, (j - 1) * MAXW + 1, MinOf(j * MAXW, Len(s)))
EncStr(s) == EncU(16, Len(s)) \o EncBytes(s)

RECURSIVE SumParts(_, _)
SumParts(a, i) == IF i > Len(a) THEN 0 ELSE NParts(Len(a[i].s)) + SumParts(a, i + 1)
EntryCount(et, a) == IF et = TSTR THEN SumParts(a, 1) ELSE Len(a)

RECURSIVE EncVar(_), EncFields(_, _), EncElems(_, _), EncParts(_, _, _)
EncParts(pre, s, j) == IF j > NParts(Len(s)) THEN << >> ELSE pre \o EncStr(Part(s, j)) \o EncParts(pre, s, j + 1)
EncVar(v) ==
    CASE v.t = TBOOL   -> << IF v.b THEN 1 ELSE 0 >>
      [] v.t \in {TINT, TUINT} -> Enc32(v.n)
      [] v.t = TFLOAT  -> EncFix(32, 32, v.i, v.f)
      [] v.t = TSTR -> EncStr(v.s)
      [] v.t = TVEC2   -> EncFix(32, 32, v.xi, v.xf) \o EncFix(32, 32, v.yi, v.yf)
      [] v.t = TSTRUCT -> EncFields(v.kv, 1) \o EncU(4, TNULL)
      [] v.t = TARRAY  -> EncU(4, v.et) \o EncU(16, EntryCount(v.et, v.a)) \o EncElems(v, 1)
EncFields(kv, i) ==
    IF i > Len(kv) THEN << >>
    ELSE LET e == kv[i]
             pre == EncU(4, e.v.t) \o EncText(e.k)
         IN  (IF e.v.t = TSTR THEN EncParts(pre, e.v.s, 1) ELSE pre \o EncVar(e.v)) \o EncFields(kv, i + 1)
EncElems(v, i) ==
    IF i > Len(v.a) THEN << >>
    ELSE (IF v.et = TSTR THEN EncParts(<< >>, v.a[i].s, 1) ELSE EncVar(v.a[i])) \o EncElems(v, i + 1)

(* ---------------- what the format cannot hold ---------------- *)
RECURSIVE Refused(_, _)
Refused(v, inside) ==
    CASE v.t = TSTR -> ~inside /\ Len(v.s) > MAXW
      [] v.t = TSTRUCT -> \E i \in 1..Len(v.kv) : ~ValidText(v.kv[i].k) \/ Refused(v.kv[i].v, TRUE)
      [] v.t = TARRAY  -> \/ EntryCount(v.et, v.a) > 65535
                         \/ \E i \in 1..Len(v.a) : Refused(v.a[i], TRUE)
      [] OTHER -> FALSE

(* ---------------- decoder (independent of the encoder) ---------------- *)
Fail == [ok |-> FALSE]
Has(b, p, n) == n >= 0 /\ p + n <= NumBits(b)
BytesAt(b, p, n) ==
    LET o == p % 8
        k == p \div 8
    IN  IF o = 0 THEN SubSeq(b, k + 1, k + n)
        ELSE [i \in 1..n |-> (b[k + i] \div P2(o)) + (b[k + i + 1] % P2(o)) * P2(8 - o)]
(* ib-1 <= 31 bits of magnitude, fb <= 32 bits; a set top fraction bit is not canonical *)
DecFix(b, p, ib, fb) ==
    IF ~Has(b, p, ib + fb) \/ BitAt(b, p + ib + fb - 1) = 1 THEN Fail
    ELSE LET m == U(b, p + 1, ib - 1) IN
         [ok |-> TRUE, i |-> IF BitAt(b, p) = 1 THEN -m ELSE m, f |-> U(b, p + ib, fb - 1), p |-> p + ib + fb]
DecText(b, p) ==
    IF ~Has(b, p, 6) THEN Fail
    ELSE LET n == U(b, p, 6) IN
         IF ~Has(b, p + 6, 6 * n) THEN Fail
         ELSE [ok |-> TRUE, k |-> [i \in 1..n |-> CodeChar(U(b, p + 6 * i, 6))], p |-> p + 6 + 6 * n]
DecStr(b, p) ==
    IF ~Has(b, p, 16) THEN Fail
    ELSE LET n == U(b, p, 16) IN
         IF ~Has(b, p + 16, 8 * n) THEN Fail
         ELSE [ok |-> TRUE, s |-> BytesAt(b, p + 16, n), p |-> p + 16 + 8 * n]

RECURSIVE DecVar(_, _, _), DecFields(_, _, _), DecElems(_, _, _, _, _), DecStrs(_, _, _, _), DecSParts(_, _, _, _)
(* a full part is continued; in a struct the continuation repeats type and name *)
DecSParts(b, p, k, acc) ==
    LET d == DecStr(b, p) IN
    IF ~d.ok THEN Fail
    ELSE IF Len(d.s) < MAXW THEN [ok |-> TRUE, s |-> acc \o d.s, p |-> d.p]
    ELSE IF ~Has(b, d.p, 4) \/ U(b, d.p, 4) # TSTR THEN Fail
    ELSE LET n == DecText(b, d.p + 4) IN
         IF ~n.ok \/ n.k # k THEN Fail ELSE DecSParts(b, n.p, k, acc \o d.s)
DecFields(b, p, acc) ==
    IF ~Has(b, p, 4) THEN Fail
    ELSE LET ty == U(b, p, 4) IN
         IF ty = TNULL THEN [ok |-> TRUE, v |-> [t |-> TSTRUCT, kv |-> acc], p |-> p + 4]
         ELSE LET n == DecText(b, p + 4) IN
              IF ~n.ok THEN Fail
              ELSE IF ty = TSTR
                   THEN LET d == DecSParts(b, n.p, n.k, << >>) IN
                        IF ~d.ok THEN Fail
                        ELSE DecFields(b, d.p, Append(acc, [k |-> n.k, v |-> [t |-> TSTR, s |-> d.s]]))
                   ELSE LET d == DecVar(b, n.p, ty) IN
                        IF ~d.ok THEN Fail ELSE DecFields(b, d.p, Append(acc, [k |-> n.k, v |-> d.v]))
DecElems(b, p, ty, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, a |-> acc, p |-> p]
    ELSE LET d == DecVar(b, p, ty) IN
         IF ~d.ok THEN Fail ELSE DecElems(b, d.p, ty, n - 1, Append(acc, d.v))
(* string arrays: n counts parts; state is the list so far and whether the last is open *)
DecStrs(b, p, n, st) ==
    IF n = 0 THEN (IF st.open THEN Fail ELSE [ok |-> TRUE, a |-> st.a, p |-> p])
    ELSE LET d == DecStr(b, p) IN
         IF ~d.ok THEN Fail
         ELSE LET a2 == IF st.open
                        THEN [st.a EXCEPT ![Len(st.a)] = [t |-> TSTR, s |-> @.s \o d.s]]
                        ELSE Append(st.a, [t |-> TSTR, s |-> d.s])
              IN  DecStrs(b, d.p, n - 1, [a |-> a2, open |-> Len(d.s) = MAXW])
DecVar(b, p, ty) ==
    CASE ty = TBOOL -> IF ~Has(b, p, 1) THEN Fail ELSE [ok |-> TRUE, v |-> [t |-> TBOOL, b |-> BitAt(b, p) = 1], p |-> p + 1]
      [] ty \in {TINT, TUINT} -> IF ~Has(b, p, 32) THEN Fail ELSE [ok |-> TRUE, v |-> [t |-> ty, n |-> I32(b, p)], p |-> p + 32]
      [] ty = TFLOAT -> LET d == DecFix(b, p, 32, 32) IN
                       IF ~d.ok THEN Fail ELSE [ok |-> TRUE, v |-> [t |-> TFLOAT, i |-> d.i, f |-> d.f], p |-> d.p]
      [] ty = TSTR -> LET d == DecStr(b, p) IN
                        IF ~d.ok THEN Fail ELSE [ok |-> TRUE, v |-> [t |-> TSTR, s |-> d.s], p |-> d.p]
      [] ty = TVEC2 -> LET x == DecFix(b, p, 32, 32) IN
                      IF ~x.ok THEN Fail
                      ELSE LET y == DecFix(b, x.p, 32, 32) IN
                           IF ~y.ok THEN Fail
                           ELSE [ok |-> TRUE, v |-> [t |-> TVEC2, xi |-> x.i, xf |-> x.f, yi |-> y.i, yf |-> y.f], p |-> y.p]
      [] ty = TSTRUCT -> DecFields(b, p, << >>)
      [] ty = TARRAY -> IF ~Has(b, p, 20) THEN Fail
                       ELSE LET et == U(b, p, 4)
                                n == U(b, p + 4, 16)
                            IN IF et \notin VarTypes THEN Fail
                               ELSE LET d == IF et = TSTR THEN DecStrs(b, p + 20, n, [a |-> << >>, open |-> FALSE])
                                             ELSE DecElems(b, p + 20, et, n, << >>)
                                    IN IF ~d.ok THEN Fail
                                       ELSE [ok |-> TRUE, v |-> [t |-> TARRAY, et |-> et, a |-> d.a], p |-> d.p]
      [] OTHER -> Fail

(* ---------------- variable files ---------------- *)
EncVarFile(header, v) ==
    LET body == ToBytes(EncVar(v))
    IN  header \o ToBytes(EncU(16, 1) \o Enc32(Len(header) + 6 + Len(body))) \o body
DecVarFile(b, header) ==
    LET h == Len(header) IN
    IF ~Has(b, 0, 8 * h + 48) \/ SubSeq(b, 1, h) # header \/ U(b, 8 * h, 16) # 1 \/ I32(b, 8 * h + 16) # Len(b) THEN Fail
    ELSE LET d == DecVar(b, 8 * h + 48, TSTRUCT) IN
         IF ~d.ok \/ AlignUp(d.p) # NumBits(b) THEN Fail ELSE d
=============================================================================
