-------------------------------- MODULE Access --------------------------------
(* Named accessors as typed views of a variable map m (a function from names   *)
(* to typed values). A row r says which variable, type and default stand       *)
(* behind an attribute.                                                        *)
EXTENDS Naturals, Integers, Sequences
Bound(m, r) == r.k \in DOMAIN m
Foreign(m, r) == Bound(m, r) /\ m[r.k].t # r.t
Value(m, r) == IF Bound(m, r) THEN m[r.k] ELSE r.d
With(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Less(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
IsArr(r) == r.t = 15
(* outcome: ok, error kind ("any": every refusal), returned value, and the set *)
(* of maps allowed afterwards. Reading a missing array may create it.          *)
Out(ok, err, ret, ms) == [ok |-> ok, err |-> err, ret |-> ret, ms |-> ms]
NoVal == [t |-> 0]
Touched(m, r) == IF IsArr(r) /\ ~Bound(m, r) THEN { m, With(m, r.k, r.d) } ELSE { m }
Apply(m, r, op, v) ==
    CASE op = "get" -> IF Foreign(m, r) THEN Out(FALSE, "value", NoVal, { m }) ELSE Out(TRUE, "", Value(m, r), Touched(m, r))
      [] op = "set" -> IF v.t < 0 THEN Out(FALSE, "any", NoVal, { m }) ELSE Out(TRUE, "", NoVal, { With(m, r.k, v) })
      [] op = "setback" -> IF Foreign(m, r) THEN Out(FALSE, "value", NoVal, { m }) ELSE Out(TRUE, "", NoVal, { With(m, r.k, Value(m, r)) })
      [] op = "del" -> Out(TRUE, "", NoVal, { Less(m, r.k) })
      [] op = "append" -> IF Foreign(m, r) THEN Out(FALSE, "value", NoVal, { m })
                          ELSE IF v.t < 0 THEN Out(FALSE, "any", NoVal, Touched(m, r))
                          ELSE LET old == Value(m, r) IN Out(TRUE, "", NoVal, { With(m, r.k, [old EXCEPT !.a = Append(@, v)]) })
      [] op = "poke" -> Out(TRUE, "", NoVal, { With(m, r.k, v) })
=============================================================================
