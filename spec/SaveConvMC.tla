----------------------------- MODULE SaveConvMC -----------------------------
(* The conversion as a loop over the entries, against the declarative counts.  *)
EXTENDS SaveConv, TLC, Json
CONSTANTS MaxScores, Emitting, Mutate
Names == << "abyss", "alley", "ascent", "custom", "den", "park" >>
VARIABLES scores, red, i, out, used, done
vars == << scores, red, i, out, used, done >>
Rank(n) == CHOOSE k \in 1..Len(Names) : Names[k] = n          \* Names is in alphabetical order
NameSet == { Names[k] : k \in 1..Len(Names) }
Entries == UNION { [1..k -> [n : NameSet, combo : {1, 2}]] : k \in 0..MaxScores }
Init == scores \in Entries /\ red \in {0, 3} /\ i = 1 /\ out = << >> /\ used = << 0, 0, 0, red >> /\ done = FALSE
Pos(o, e) == LET later == { k \in DOMAIN o : Rank(o[k].n) > Rank(e.n) } IN
             IF later = {} THEN Len(o) + 1 ELSE CHOOSE k \in later : \A m \in later : k <= m
Ins(o, e) == LET p == Pos(o, e) IN SubSeq(o, 1, p - 1) \o << e >> \o SubSeq(o, p, Len(o))
Step == /\ ~done /\ i <= Len(scores)
        /\ LET s == scores[i] IN
           IF Known(s.n) \/ Mutate
           THEN /\ out' = Ins(out, [n |-> s.n, combo |-> s.combo, key |-> IF Known(s.n) THEN KeyType(s.n) ELSE 4])
                /\ used' = IF Known(s.n) /\ Tier(s.n) > 0 THEN [used EXCEPT ![Tier(s.n)] = @ + 1] ELSE used
           ELSE UNCHANGED << out, used >>
        /\ i' = i + 1 /\ UNCHANGED << scores, red, done >>
Finish == ~done /\ i > Len(scores) /\ done' = TRUE /\ UNCHANGED << scores, red, i, out, used >>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

Times(s, e) == Cardinality({ k \in DOMAIN s : s[k].n = e.n /\ s[k].combo = e.combo })
EveryScore == done => \A k \in DOMAIN scores : Known(scores[k].n) => Times(out, scores[k]) = Times(scores, scores[k])
OnlyScores == done => \A k \in DOMAIN out : Known(out[k].n) /\ Times(scores, out[k]) = Times(out, out[k]) /\ out[k].key = KeyType(out[k].n)
Sorted == done => \A k \in 1..(Len(out) - 1) : Rank(out[k].n) <= Rank(out[k + 1].n)
Keys == done => used = << Count(scores, 1), Count(scores, 2), Count(scores, 3), red >>
Balance == done => Len(out) = Count(scores, 0) + used[1] + used[2] + used[3]
Emit == (Emitting /\ i = 1 /\ ~done) => PrintT("J " \o ToJson([scores |-> scores, red |-> red]))
=============================================================================
