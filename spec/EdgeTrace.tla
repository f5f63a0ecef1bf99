------------------------------ MODULE EdgeTrace ------------------------------
(* Judges recorded edge computations (C18: op vis, C19: op caps).                *)
EXTENDS EdgeRules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE l
Clause(n, ok) == IF ok THEN {} ELSE {n}
Range(s) == {s[i] : i \in 1..Len(s)}
Look(t) == << t.ss, t.st, t.sp >>
Tiling(ts) == LET key(t) == << t.l, t.x, t.y >> IN
    [c \in {key(ts[i]) : i \in 1..Len(ts)} |-> LET t == ts[CHOOSE i \in 1..Len(ts) : key(ts[i]) = c] IN [sh |-> t.sh, look |-> Look(t), fl |-> t.fl, e |-> t.e]]
Bare(T) == [c \in DOMAIN T |-> [T[c] EXCEPT !.e = << >>]]
GoodTiles(ts) == \A i \in 1..Len(ts) : ts[i].sh \in Shapes /\ Len(ts[i].e) = 4
CallKey(q) == << q.x, q.y, q.s, q.look, q.nlook >>
FailsVis(e) ==
    LET B == Tiling(e.before)
        A == Tiling(e.after)
        said(T, c, s) == \E i \in 1..Len(e.calls) : CallKey(e.calls[i]) = << c[2], c[3], s, T[c].look, T[Beside(c, s)].look >> /\ e.calls[i].ret
        expected == IF e.cb THEN Visibility(B, said) ELSE Visibility(B, DefaultVisible)
        asked == {<< p[1][2], p[1][3], p[2], B[p[1]].look, B[Beside(p[1], p[2])].look >> : p \in {q \in (DOMAIN B) \X (0..3) : Asked(B, q[1], q[2])}}
        kept(x, y) == SubSeq(x, 3, 12) = SubSeq(y, 3, 12)
    IN
    Clause("vis-tiles-kept", Bare(A) = Bare(B))
    \cup (IF DOMAIN A # DOMAIN B THEN {} ELSE
          Clause("vis-missing-edge-blank", \A c \in DOMAIN A : \A s \in 0..3 : HasEdge(B[c].sh, s) \/ A[c].e[s + 1] = Blank)
          \cup Clause("vis-solid", \A c \in DOMAIN A : \A s \in EdgesOn(B[c].sh) : A[c].e[s + 1][1] = expected[c].e[s + 1][1])
          \cup Clause("vis-visible", \A c \in DOMAIN A : \A s \in EdgesOn(B[c].sh) : A[c].e[s + 1][2] = expected[c].e[s + 1][2])
          \cup Clause("vis-other-data", \A c \in DOMAIN A : \A s \in EdgesOn(B[c].sh) : kept(A[c].e[s + 1], B[c].e[s + 1]))
          \cup Clause("vis-callback", e.cb => {CallKey(e.calls[i]) : i \in 1..Len(e.calls)} = asked))
FailsCaps(e) ==
    LET B == Tiling(e.before)
        A == Tiling(e.after)
        X == Caps(B)
        part(n, ix) == Clause(n, \A c \in DOMAIN A : \A s \in EdgesOn(B[c].sh) : \A i \in ix : A[c].e[s + 1][i] = X[c].e[s + 1][i])
    IN
    Clause("caps-tiles-kept", Bare(A) = Bare(B))
    \cup (IF DOMAIN A # DOMAIN B THEN {} ELSE
          part("caps-flags-kept", {1, 2}) \cup part("caps-caps", {3, 4}) \cup part("caps-angles", {5, 6})
          \cup part("caps-filth-kept", {7, 8}) \cup part("caps-filth-caps", {9, 10}) \cup part("caps-filth-angles", {11, 12})
          \cup Clause("caps-missing-edge-clear", \A c \in DOMAIN A : \A s \in 0..3 : HasEdge(B[c].sh, s) \/ B[c].e[s + 1] # Blank \/ A[c].e[s + 1] = Blank))
Fails(e) ==
    IF ~ GoodTiles(e.before) THEN {"harness-tiles"}
    ELSE IF e.out # "ok" THEN {e.op \o "-outcome"}
    ELSE IF ~ GoodTiles(e.after) THEN {e.op \o "-malformed"}
    ELSE IF e.op = "vis" THEN FailsVis(e) ELSE FailsCaps(e)
TInit == l = 1
TNext == /\ l <= Len(Trace)
         /\ LET e == Trace[l]
                f == Fails(e)
            IN  IF f = {} THEN TRUE ELSE PrintT("J " \o ToJson([mismatch |-> e.id, clauses |-> f]))
         /\ IF l = Len(Trace) THEN PrintT("J " \o ToJson([done |-> l])) ELSE TRUE
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
=============================================================================
