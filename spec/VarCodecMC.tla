----------------------------- MODULE VarCodecMC -----------------------------
(* Values are grown from leaves by wrapping them into structs and arrays and    *)
(* adding members; in every state the encoding is parsed back at every bit      *)
(* alignment and surrounded by other data.                                      *)
EXTENDS VarCodec, TLC, Json, FiniteSets
CONSTANTS MaxDepth, MaxMembers, Emitting, Rich, Offs
VARIABLES v, depth, off
vars == << v, depth, off >>

Bytes01 == {0, 255}
Strs(n) == UNION {[1..k -> Bytes01] : k \in 0..n}
LeavesSmall == { [t |-> TBOOL, b |-> TRUE], [t |-> TINT, n |-> -1], [t |-> TSTR, s |-> << >>],
                 [t |-> TSTR, s |-> << 255, 0 >>], [t |-> TFLOAT, i |-> -1, f |-> 1073741824] }
Leaves == LeavesSmall \cup
          { [t |-> TBOOL, b |-> FALSE], [t |-> TINT, n |-> 2147483647], [t |-> TINT, n |-> -2147483647 - 1],
            [t |-> TINT, n |-> 0], [t |-> TUINT, n |-> -1], [t |-> TUINT, n |-> 1], [t |-> TUINT, n |-> -2147483647 - 1],
            [t |-> TFLOAT, i |-> 0, f |-> 0], [t |-> TFLOAT, i |-> 2147483647, f |-> 2147481600],
            [t |-> TFLOAT, i |-> -2147483647, f |-> 1024], [t |-> TFLOAT, i |-> -1, f |-> 1], [t |-> TFLOAT, i |-> 0, f |-> 2147483647],
            [t |-> TVEC2, xi |-> -3, xf |-> 536870912, yi |-> 7, yf |-> 0] }
          \cup {[t |-> TSTR, s |-> s] : s \in Strs(IF Rich THEN 5 ELSE 3)}
Keys == { << 97 >>, << 95, 57, 90, 123 >> }

Init == v \in Leaves /\ depth = 0 /\ off \in Offs
HasKey(s, k) == \E i \in 1..Len(s.kv) : s.kv[i].k = k
Grow ==
    \/ /\ depth < MaxDepth /\ depth' = depth + 1
       /\ \/ \E k \in Keys : v' = [t |-> TSTRUCT, kv |-> << [k |-> k, v |-> v] >>]
          \/ v' = [t |-> TARRAY, et |-> v.t, a |-> << v >>]
    \/ /\ v.t = TSTRUCT /\ Len(v.kv) < MaxMembers /\ UNCHANGED depth
       /\ \E k \in Keys, x \in LeavesSmall : ~HasKey(v, k) /\ v' = [v EXCEPT !.kv = Append(@, [k |-> k, v |-> x])]
    \/ /\ v.t = TARRAY /\ Len(v.a) < MaxMembers /\ UNCHANGED depth
       /\ \/ v' = [v EXCEPT !.a = Append(@, @[1])]
          \/ \E x \in LeavesSmall : x.t = v.et /\ v' = [v EXCEPT !.a = Append(@, x)]
          \/ v.et \in {TSTRUCT} /\ v' = [v EXCEPT !.a = Append(@, [t |-> TSTRUCT, kv |-> << >>])]
          \/ v.et \in {TARRAY} /\ v' = [v EXCEPT !.a = Append(@, [t |-> TARRAY, et |-> TSTR, a |-> << >>])]
Next == Grow /\ UNCHANGED off
Spec == Init /\ [][Next]_vars

Lead(n) == [i \in 1..n |-> 1]
Placed == ToBytes(Lead(off) \o EncVar(v) \o << 1, 0, 1, 1 >>)
RoundTrip == Refused(v, FALSE) \/
             LET d == DecVar(Placed, off, v.t) IN d.ok /\ d.v = v /\ d.p = off + Len(EncVar(v))
NonVacuous == ~Refused(v, FALSE) \/ v.t = TSTR
Emit == Emitting => PrintT("J " \o ToJson([v |-> v, off |-> off, bytes |-> ToBytes(Lead(off) \o EncVar(v)), len |-> Len(EncVar(v))]))
=============================================================================
