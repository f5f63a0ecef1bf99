-------------------------------- MODULE VarSeq --------------------------------
(* An array variable seen as a mutable sequence of plain values. Positions are *)
(* the ones a caller writes: 0-based, negative ones count from the end.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
Norm(i, n) == IF i < 0 THEN i + n ELSE i
InRange(i, n) == Norm(i, n) >= 0 /\ Norm(i, n) < n
Lim(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
InsertAt(i, n) == Lim(Norm(i, n), 0, n)

Got(s, i) == s[Norm(i, Len(s)) + 1]
Put(s, i, v) == [s EXCEPT ![Norm(i, Len(s)) + 1] = v]
Ins(s, i, v) == LET p == InsertAt(i, Len(s)) IN SubSeq(s, 1, p) \o << v >> \o SubSeq(s, p + 1, Len(s))
Without(s, i) == LET p == Norm(i, Len(s)) IN SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
In(s, v) == \E i \in DOMAIN s : s[i] = v
First(s, v) == (CHOOSE i \in DOMAIN s : s[i] = v /\ \A j \in DOMAIN s : s[j] = v => i <= j) - 1
Times(s, v) == Cardinality({ i \in DOMAIN s : s[i] = v })

(* the 0-based positions a slice a:b:step covers (Python's slice.indices); a   *)
(* bound is [has, x]                                                           *)
SliceSet(a, b, step, n) ==
    IF step > 0
    THEN LET lo == IF a.has THEN Lim(Norm(a.x, n), 0, n) ELSE 0
             hi == IF b.has THEN Lim(Norm(b.x, n), 0, n) ELSE n
         IN  { p \in lo..(hi - 1) : (p - lo) % step = 0 }
    ELSE LET hi == IF a.has THEN Lim(Norm(a.x, n), -1, n - 1) ELSE n - 1
             lo == IF b.has THEN Lim(Norm(b.x, n), -1, n - 1) ELSE -1
         IN  { p \in (lo + 1)..hi : (hi - p) % (0 - step) = 0 }
RECURSIVE Drop(_, _, _)
Drop(s, ps, i) == IF i > Len(s) THEN << >>
                  ELSE IF (i - 1) \in ps THEN Drop(s, ps, i + 1) ELSE << s[i] >> \o Drop(s, ps, i + 1)
(* the values in front of the first one that is refused *)
RECURSIVE Prefix(_)
Prefix(vs) == IF vs = << >> \/ vs[1].t < 0 THEN << >> ELSE << vs[1] >> \o Prefix(Tail(vs))
=============================================================================
