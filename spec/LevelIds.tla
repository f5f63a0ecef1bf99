------------------------------ MODULE LevelIds ------------------------------
(* Identity of props and entities in a level and its backdrop.                   *)
(*   level = [props, bprops, ents]  sets of objects                               *)
(*   prop = [id, tok]    entity = [id, tok, refs]                                  *)
(* tok stands for everything about the object except its id and its references;   *)
(* refs is the sequence of entity ids it refers to (0: nothing).                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
BASE == 100
Ids(S) == {o.id : o \in S}
Toks(S) == {o.tok : o \in S}
AllIn(L) == L.props \cup L.bprops \cup L.ents
UsedIds(L) == Ids(L.props) \cup Ids(L.bprops) \cup Ids(L.ents)
KindSet(L, k) == CASE k = "p" -> L.props [] k = "b" -> L.bprops [] k = "e" -> L.ents
WithKind(L, k, S) == CASE k = "p" -> [L EXCEPT !.props = S] [] k = "b" -> [L EXCEPT !.bprops = S] [] k = "e" -> [L EXCEPT !.ents = S]
Empty == [props |-> {}, bprops |-> {}, ents |-> {}]
OneEach(S) == \A a, b \in S : a.id = b.id => a = b
ByTok(S, t) == CHOOSE o \in S : o.tok = t
ById(S, i) == CHOOSE o \in S : o.id = i
MaxOf(S, d) == IF S = {} THEN d ELSE CHOOSE x \in S : \A y \in S : y <= x

(* ---- what an observer may rely on ---- *)
AutoIdOk(L, id) == id >= BASE /\ id \notin UsedIds(L)
MaxIdOk(L, m) == m >= BASE /\ \A i \in UsedIds(L) : m >= i
(* the references of the entity with token t, as tokens of what they refer to *)
Target(L, r) == IF r \in Ids(L.ents) THEN ById(L.ents, r).tok ELSE -1
RefToks(L, e) == [i \in 1..Len(e.refs) |-> Target(L, e.refs[i])]
SameRefs(La, a, Lb, b) == Len(a.refs) = Len(b.refs) /\ RefToks(La, a) = RefToks(Lb, b)
RemapRenames(L, M) ==       \* one-to-one, nothing lost, nothing else changed
    /\ Toks(M.props) = Toks(L.props) /\ Cardinality(M.props) = Cardinality(L.props)
    /\ Toks(M.bprops) = Toks(L.bprops) /\ Cardinality(M.bprops) = Cardinality(L.bprops)
    /\ Toks(M.ents) = Toks(L.ents) /\ Cardinality(M.ents) = Cardinality(L.ents)
RemapIds(L, M, min) ==
    LET n == Cardinality(M.props) + Cardinality(M.bprops) + Cardinality(M.ents) IN
    Cardinality(UsedIds(M)) = n /\ (\A i \in UsedIds(M) : i >= min) /\ (n > 0 => min \in UsedIds(M))
RemapRefs(L, M) ==
    \A e \in M.ents : LET o == ByTok(L.ents, e.tok) IN
        SameRefs(L, o, M, e) /\ \A i \in 1..Len(e.refs) : Target(L, o.refs[i]) = -1 => e.refs[i] = 0
MergeUnion(L, O, M) ==
    /\ Toks(M.props) = Toks(L.props) \cup Toks(O.props) /\ Cardinality(M.props) = Cardinality(L.props) + Cardinality(O.props)
    /\ Toks(M.bprops) = Toks(L.bprops) \cup Toks(O.bprops) /\ Cardinality(M.bprops) = Cardinality(L.bprops) + Cardinality(O.bprops)
    /\ Toks(M.ents) = Toks(L.ents) \cup Toks(O.ents) /\ Cardinality(M.ents) = Cardinality(L.ents) + Cardinality(O.ents)
MergeDistinct(L, O, M) ==    \* (a prop and an entity of the other level may share an id already)
    Cardinality(UsedIds(M)) >= Cardinality(L.props) + Cardinality(L.bprops) + Cardinality(L.ents) + Cardinality(UsedIds(O))
Keeps(La, a, M, b) ==        \* references that resolved still lead to the same object
    /\ Len(a.refs) = Len(b.refs)
    /\ \A i \in 1..Len(a.refs) : Target(La, a.refs[i]) # -1 => Target(M, b.refs[i]) = Target(La, a.refs[i])
MergeRefs(L, O, M) ==
    \A e \in M.ents : IF e.tok \in Toks(L.ents) THEN Keeps(L, ByTok(L.ents, e.tok), M, e) ELSE Keeps(O, ByTok(O.ents, e.tok), M, e)
(* merging without renaming: the other level wins where an id is taken *)
PlainMerge(L, O) ==
    [props |-> {o \in L.props : o.id \notin Ids(O.props)} \cup O.props,
     bprops |-> {o \in L.bprops : o.id \notin Ids(O.bprops)} \cup O.bprops,
     ents |-> {o \in L.ents : o.id \notin Ids(O.ents)} \cup O.ents]

(* ---- the allocator design (one counter per level, shared with the backdrop) ---- *)
RECURSIVE Renum(_, _, _)
Renum(S, at, m) ==           \* id -> new id for a set of objects, in order of id
    IF S = {} THEN m
    ELSE LET o == CHOOSE o \in S : \A p \in S : o.id <= p.id
         IN  Renum(S \ {o}, at + 1, m @@ (o.id :> at))
DoRemap(L, min) ==
    LET mp == Renum(L.props, min, << >>)
        me == Renum(L.ents, min + Cardinality(L.props), << >>)
        mb == Renum(L.bprops, min + Cardinality(L.props) + Cardinality(L.ents), << >>)
        R(r) == IF r \in Ids(L.ents) THEN me[r] ELSE 0
    IN  [props |-> {[o EXCEPT !.id = mp[o.id]] : o \in L.props},
         bprops |-> {[o EXCEPT !.id = mb[o.id]] : o \in L.bprops},
         ents |-> {[o EXCEPT !.id = me[o.id], !.refs = [i \in 1..Len(o.refs) |-> R(o.refs[i])]] : o \in L.ents}]
Count(L) == Cardinality(L.props) + Cardinality(L.bprops) + Cardinality(L.ents)
CalcMax(L, next, reset) == MaxOf(UsedIds(L) \cup {BASE, IF reset THEN BASE ELSE next - 1}, BASE)
=============================================================================
