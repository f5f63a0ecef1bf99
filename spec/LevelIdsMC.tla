----------------------------- MODULE LevelIdsMC -----------------------------
(* Two levels under every history of additions, removals, renumberings, merges   *)
(* and reloads up to DEPTH operations.  hist is the behaviour replayed against    *)
(* the implementation.  A level that was merged into the other is then replaced   *)
(* by a new one (tokens stay unique).                                             *)
EXTENDS LevelIds, Json
CONSTANTS DEPTH, EXPL, Mutate
VARIABLES lv, next, tok, hist, ok
vars == << lv, next, tok, hist, ok >>
View == << lv, next, Len(hist), ok >>
Init == lv = << Empty, Empty >> /\ next = << BASE, BASE >> /\ tok = 1 /\ hist = << >> /\ ok = TRUE
Step(op) == hist' = Append(hist, op)
Obj(k, id, r) == IF k = "e" THEN [id |-> id, tok |-> tok, refs |-> << r >>] ELSE [id |-> id, tok |-> tok]
Set(w, L, n) == lv' = [lv EXCEPT ![w] = L] /\ next' = [next EXCEPT ![w] = n]
Auto(w, k, r) ==
    LET id == next[w] IN
    /\ ok' = (ok /\ AutoIdOk(lv[w], id))
    /\ Set(w, WithKind(lv[w], k, KindSet(lv[w], k) \cup {Obj(k, id, r)}), id + 1)
    /\ tok' = tok + 1 /\ Step([op |-> "add", w |-> w, k |-> k, id |-> -1, r |-> r])
Explicit(w, k, id, r) ==
    /\ Step([op |-> "add", w |-> w, k |-> k, id |-> id, r |-> r]) /\ tok' = tok + 1 /\ ok' = ok
    /\ LET n == IF next[w] > id THEN next[w] ELSE id + 1 IN
       IF id \in Ids(KindSet(lv[w], k)) THEN Set(w, lv[w], n)
       ELSE Set(w, WithKind(lv[w], k, KindSet(lv[w], k) \cup {Obj(k, id, r)}), n)
Del(w, k, id) == /\ id \in Ids(KindSet(lv[w], k))
                 /\ Set(w, WithKind(lv[w], k, {o \in KindSet(lv[w], k) : o.id # id}), next[w])
                 /\ Step([op |-> "del", w |-> w, k |-> k, id |-> id]) /\ UNCHANGED << tok, ok >>
Remap(w, min) == LET M == DoRemap(lv[w], min) IN
    /\ ok' = (ok /\ RemapRenames(lv[w], M) /\ RemapIds(lv[w], M, min) /\ RemapRefs(lv[w], M))
    /\ Set(w, M, min + Count(lv[w])) /\ Step([op |-> "remap", w |-> w, min |-> min]) /\ tok' = tok
MaxId(w, reset) == LET m == CalcMax(lv[w], next[w], reset) IN
    /\ ok' = (ok /\ MaxIdOk(lv[w], m) /\ (~reset => m >= next[w] - 1))
    /\ Set(w, lv[w], m + 1) /\ Step([op |-> "maxid", w |-> w, reset |-> reset]) /\ tok' = tok
Reload(w) == /\ Set(w, lv[w], CalcMax(lv[w], next[w], FALSE) + 1)
             /\ Step([op |-> "reload", w |-> w]) /\ UNCHANGED << tok, ok >>
Merge(remap) ==
    /\ Step([op |-> "merge", remap |-> remap]) /\ tok' = tok
    /\ IF remap
       THEN LET m == CalcMax(lv[2], next[2], TRUE)
                L == DoRemap(lv[1], IF Mutate THEN BASE ELSE m + 1)
                M == PlainMerge(L, lv[2])
            IN  /\ ok' = (ok /\ MergeUnion(lv[1], lv[2], M) /\ MergeDistinct(lv[1], lv[2], M) /\ MergeRefs(lv[1], lv[2], M))
                /\ lv' = << M, Empty >> /\ next' = << m + 1 + Count(L), BASE >>
       ELSE LET M == PlainMerge(lv[1], lv[2]) IN
            /\ ok' = ok /\ lv' = << M, Empty >>
            /\ next' = << MaxOf(UsedIds(lv[2]) \cup {next[1] - 1}, BASE) + 1, BASE >>
Next == /\ Len(hist) < DEPTH
        /\ \/ \E w \in 1..2, k \in {"p", "b", "e"}, r \in {0, BASE} : (k # "e" => r = 0) /\ (Auto(w, k, r) \/ \E id \in EXPL : Explicit(w, k, id, r))
           \/ \E w \in 1..2, k \in {"p", "b", "e"}, id \in {BASE, BASE + 1} : Del(w, k, id)
           \/ \E w \in 1..2, min \in {BASE, BASE + 1} : Remap(w, min)
           \/ \E w \in 1..2 : MaxId(w, TRUE) \/ MaxId(w, FALSE) \/ Reload(w)
           \/ Merge(TRUE) \/ Merge(FALSE)
Spec == Init /\ [][Next]_vars
Good == ok
Fresh == \A w \in 1..2 : next[w] >= BASE /\ \A i \in UsedIds(lv[w]) : next[w] > i
Unique == \A w \in 1..2 : OneEach(lv[w].props) /\ OneEach(lv[w].bprops) /\ OneEach(lv[w].ents)
Emit == IF Len(hist) = DEPTH THEN PrintT("J " \o ToJson([hist |-> hist])) ELSE TRUE
=============================================================================
