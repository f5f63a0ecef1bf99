------------------------------- MODULE ShareMC -------------------------------
(* Objects in a heap of cells, every part of an object being a cell.  Reading, *)
(* creating and copying allocate; merging copies the other object's parts in;   *)
(* a change goes to the cell.  Against Share: what becomes visible.             *)
EXTENDS Share, TLC, Json
CONSTANTS MaxObj, MaxOps, Emitting, Mutate
VARIABLES heap, obj, hist, old, last
vars == << heap, obj, hist, old, last >>
Parts == {"a", "b"}
N == Len(obj)
Cells == 1..Len(heap)
Val == [k \in { << i, p >> : i \in 1..N, p \in Parts } |-> heap[obj[k[1]][k[2]]]]
Alloc(vs) == heap' = heap \o vs
Two(n) == [p \in Parts |-> IF p = "a" THEN n + 1 ELSE n + 2]
Init == heap = << >> /\ obj = << >> /\ hist = << >> /\ old = [k \in {} |-> 0] /\ last = [op |-> "start", may |-> "none", o |-> 0, p |-> "", like |-> 0]
Do(e) == hist' = Append(hist, [op |-> e.op, o |-> e.o, p |-> e.p, like |-> e.like]) /\ old' = Val /\ last' = e
New(op) == N < MaxObj /\ Do([op |-> op, may |-> "new", o |-> N + 1, p |-> "", like |-> 0]) /\ Alloc(<< 0, 0 >>) /\ obj' = Append(obj, Two(Len(heap)))
Copy(i) == N < MaxObj /\ Do([op |-> "copy", may |-> "new", o |-> N + 1, p |-> "", like |-> i])
           /\ Alloc(<< heap[obj[i]["a"]], heap[obj[i]["b"]] >>) /\ obj' = Append(obj, Two(Len(heap)))
Merge(i, j) == /\ Do([op |-> "merge", may |-> "only", o |-> i, p |-> "", like |-> j])
               /\ IF Mutate THEN heap' = heap /\ obj' = [obj EXCEPT ![i] = obj[j]]
                  ELSE Alloc(<< heap[obj[j]["a"]], heap[obj[j]["b"]] >>) /\ obj' = [obj EXCEPT ![i] = Two(Len(heap))]
Change(i, p) == /\ Do([op |-> "change", may |-> "part", o |-> i, p |-> p, like |-> 0]) /\ heap' = [heap EXCEPT ![obj[i][p]] = @ + 1] /\ obj' = obj
Whole(op, i) == /\ Do([op |-> op, may |-> "only", o |-> i, p |-> "", like |-> 0]) /\ heap' = [c \in Cells |-> IF c \in {obj[i]["a"], obj[i]["b"]} THEN heap[c] + 5 ELSE heap[c]] /\ obj' = obj
Store(i) == Do([op |-> "write", may |-> "none", o |-> i, p |-> "", like |-> 0]) /\ UNCHANGED << heap, obj >>
Next == Len(hist) < MaxOps /\ \/ \E op \in {"new", "read"} : New(op)
                              \/ \E i \in 1..N : Copy(i) \/ Store(i) \/ Whole("transform", i) \/ (\E j \in (1..N) \ {i} : Merge(i, j)) \/ \E p \in Parts : Change(i, p)
Spec == Init /\ [][Next]_vars
Disjoint == \A i, j \in 1..N : \A p, q \in Parts : << i, p >> # << j, q >> => obj[i][p] # obj[j][q]
Independent == Allowed(last, old, Val)
CopyAlike == last.op = "copy" => \A p \in Parts : Val[<< last.o, p >>] = old[<< last.like, p >>]
Emit == (Emitting /\ Len(hist) = MaxOps /\ last.op \in {"change", "transform"} /\ \E i \in DOMAIN hist : hist[i].op \in {"copy", "merge", "read"}) => PrintT("J " \o ToJson([ops |-> hist]))
=============================================================================
