------------------------------ MODULE TileQueryMC ------------------------------
EXTENDS TileQuery, Json
CONSTANTS MaxOps, Emitting, Mutate
VARIABLES t, t0, hist
vars == << t, t0, hist >>
NoEdge == [i \in 1..12 |-> 0]
Dirty == [i \in 1..12 |-> IF i = 7 THEN 2 ELSE 0]
Tiles == [sh : {0}, fl : {4}, ss : 0..7, sp : {0, 1}, st : {2, 6, 9, 13, 21}, e : [1..4 -> {NoEdge, Dirty}]]
Few == { x \in Tiles : \A s \in 2..4 : x.e[s] = NoEdge }
Init == t \in (IF Emitting THEN Few ELSE Tiles) /\ t0 = t /\ hist = << >>
Do(n, x) == t' = x /\ t0' = t /\ hist' = Append(hist, n)
Next == /\ Len(hist) < MaxOps
        /\ \/ Do("block", IF CanDustblock(t) THEN (IF Mutate THEN [t EXCEPT !.st = Dustblock(t.ss)] ELSE AsDustblock(t)) ELSE t)
           \/ \E ss \in 0..7 : Do("sprite", WithSprite(t, << ss, t.st, t.sp >>))
           \/ \E s \in 1..4 : Do("clean", [t EXCEPT !.e[s] = NoEdge])
Spec == Init /\ [][Next]_vars
Last == IF hist = << >> THEN "" ELSE hist[Len(hist)]
BlockWorks == Last = "block" => IF CanDustblock(t0) THEN IsDustblock(t) /\ t.sp = 1 /\ t.ss = t0.ss /\ t.e = t0.e ELSE t = t0
Clean == (Last = "clean" /\ HasFilth(t)) => HasFilth(t0)
NeverNone == t.ss \in {0, 6, 7} => ~IsDustblock(t)
Emit == (Emitting /\ Len(hist) = MaxOps) => PrintT("J " \o ToJson([tile |-> t0]))
=============================================================================
