-------------------------------- MODULE Func --------------------------------
(* Results as functions of the arguments.  An evaluation has a key (operation  *)
(* and content of its arguments) and a result; whatever happened before, the   *)
(* result is the one a process that did nothing else would give, and equal     *)
(* keys have equal results.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
Same(e) == e.out = e.fresh
Function(known, e) == e.key \in DOMAIN known => known[e.key] = e.out
Learn(known, e) == [k \in DOMAIN known \cup {e.key} |-> IF k = e.key THEN e.out ELSE known[k]]
(* an operation that only looks leaves its arguments as they were *)
OnlyLooked(e) == e.look => e.after = e.before
(* what an operation was not given does not change at all *)
Bystanders(e) == e.rest = e.restafter
=============================================================================
