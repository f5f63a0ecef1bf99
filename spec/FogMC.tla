--------------------------------- MODULE FogMC ---------------------------------
(* Normalising one element at a time, from every initial length and setting;   *)
(* the settings may change in between.                                         *)
EXTENDS Fog, FiniteSets, TLC, Json
CONSTANTS Rounds, Emitting, Mutate
VARIABLES col, per, grad, sub, pc, orig, rounds
vars == << col, per, grad, sub, pc, orig, rounds >>
Lens == {0, 1, 20, 21, 22, 100, 545, 546, 547}
Mk(n) == [i \in 1..n |-> i]
Init == /\ \E n \in Lens : col = Mk(n)
        /\ \E n \in Lens : per = Mk(n)
        /\ \E n \in {0, 2, 3, 5} : grad = Mk(n)
        /\ sub \in BOOLEAN /\ pc = "idle" /\ orig = << col, per, grad >> /\ rounds = 0
Fix(s, n, fill) == IF Len(s) > n THEN SubSeq(s, 1, Len(s) - 1) ELSE Append(s, fill)
N == Want(sub)
RECURSIVE Loop(_, _, _)
Loop(s, n, fill) == IF Len(s) = n THEN s ELSE Loop(Fix(s, n, fill), n, fill)
Normalise == /\ pc = "idle" /\ rounds < Rounds /\ orig' = << col, per, grad >>
             /\ col' = Loop(col, N, 0) /\ per' = (IF Mutate /\ Len(per) > N THEN per ELSE Loop(per, N, 0)) /\ grad' = Loop(grad, 3, 0)
             /\ pc' = "done" /\ UNCHANGED << sub, rounds >>
Toggle == pc = "done" /\ sub' \in BOOLEAN /\ pc' = "idle" /\ rounds' = rounds + 1 /\ UNCHANGED << col, per, grad, orig >>
Next == Normalise \/ Toggle
Spec == Init /\ [][Next]_vars
Lengths == pc = "done" => Len(col) = N /\ Len(per) = N /\ Len(grad) = 3
Declared == pc = "done" => col = Fit(orig[1], N, 0) /\ per = Fit(orig[2], N, 0) /\ grad = Fit(orig[3], 3, 0)
Covered == pc = "done" => \A lay \in 0..(NLayers - 1) : Index(lay, NoSub) < Len(col) /\ (sub => \A s \in 0..(NSub - 1) : Index(lay, s) < Len(col))
Pairs == { << lay, s >> : lay \in 0..(NLayers - 1), s \in -1..(NSub - 1) }
ASSUME Cardinality({ Index(p[1], p[2]) : p \in Pairs }) = Cardinality(Pairs)
ASSUME { Index(p[1], p[2]) : p \in Pairs } = 0..(Want(TRUE) - 1)
ASSUME { Index(lay, NoSub) : lay \in 0..(NLayers - 1) } = 0..(Want(FALSE) - 1)
Idempotent == pc = "done" => Loop(col, N, 0) = col /\ Loop(per, N, 0) = per /\ Loop(grad, 3, 0) = grad
Emit == (Emitting /\ pc = "idle") => PrintT("J " \o ToJson([c |-> Len(col), p |-> Len(per), g |-> Len(grad), sub |-> sub]))
=============================================================================
