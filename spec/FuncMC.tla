------------------------------- MODULE FuncMC -------------------------------
(* Objects whose content has two fields are evaluated, changed in place and     *)
(* evaluated again; the process may remember results as long as it recalls them *)
(* under everything they depend on.  Mutate: remembered per object and first    *)
(* field only.                                                                  *)
EXTENDS Func, TLC, Json
CONSTANTS NObj, MaxOps, Emitting, Mutate
VARIABLES con, memo, known, last, hist
vars == << con, memo, known, last, hist >>
Contents == (0..1) \X (0..1)
Value(f, c) == IF f = "look" THEN 10 + 2 * c[1] + c[2] ELSE 20 + 2 * c[2] + c[1]
Turned(c) == << c[2], c[1] >>
Key(f, c) == << f, c >>
Slot(i, f) == IF Mutate THEN << f, i, con[i][1] >> ELSE << f, con[i] >>
None == [key |-> << "none", << 0, 0 >> >>, out |-> 0, fresh |-> 0, look |-> TRUE, before |-> 0, after |-> 0, rest |-> 0, restafter |-> 0]
Init == /\ con = [i \in 1..NObj |-> << 0, 0 >>] /\ memo = [k \in {} |-> 0] /\ known = [k \in {} |-> 0] /\ last = None /\ hist = << >>
Recall(i, f) == IF Slot(i, f) \in DOMAIN memo THEN memo[Slot(i, f)] ELSE Value(f, con[i])
Rest(i) == [j \in (1..NObj) \ {i} |-> con[j]]
Eval(i, f) ==
    LET r == Recall(i, f) IN
    /\ memo' = [k \in DOMAIN memo \cup {Slot(i, f)} |-> IF k = Slot(i, f) THEN r ELSE memo[k]]
    /\ con' = IF f = "turn" THEN [con EXCEPT ![i] = Turned(@)] ELSE con
    /\ last' = [key |-> Key(f, con[i]), out |-> r, fresh |-> Value(f, con[i]), look |-> f # "turn", before |-> con[i], after |-> con'[i],
                rest |-> Rest(i), restafter |-> [j \in (1..NObj) \ {i} |-> con'[j]]]
    /\ known' = Learn(known, last')
    /\ hist' = Append(hist, [op |-> "eval", o |-> i, f |-> f, c |-> << 0, 0 >>])
Set(i, c) == /\ c # con[i] /\ con' = [con EXCEPT ![i] = c] /\ UNCHANGED << memo, known >> /\ last' = None
             /\ hist' = Append(hist, [op |-> "set", o |-> i, f |-> "", c |-> c])
Next == Len(hist) < MaxOps /\ \E i \in 1..NObj : (\E f \in {"look", "turn"} : Eval(i, f)) \/ \E c \in Contents : Set(i, c)
Spec == Init /\ [][Next]_vars
Evaluated == last.key[1] # "none"
Determined == Evaluated => Same(last) /\ Function(known, last)
Looking == OnlyLooked(last) /\ Bystanders(last)
Emit == (Emitting /\ Len(hist) = MaxOps /\ Evaluated /\ \E i \in DOMAIN hist : hist[i].op = "set" /\ i > 1) => PrintT("J " \o ToJson([ops |-> hist]))
=============================================================================
