------------------------------- MODULE CliFile -------------------------------
(* The file editing commands (variables, thumbnail) as a state machine over a  *)
(* directory with a target file and an image. A command runs in steps: read    *)
(* the target, read its other input, encode the result, open the output        *)
(* (which truncates it), write it. Any step whose input is bad ends the        *)
(* command with a failure at that point.                                       *)
EXTENDS Naturals, Sequences

NoFile == [kind |-> "none"]
(* kind: "level", "vars" (a variable file), "cut" (a truncated level),         *)
(* "other" (unknown header), "empty" (just truncated by an open)               *)
Level(v, s, r, t) == [kind |-> "level", vars |-> v, sshot |-> s, regs |-> r, taken |-> t]
VarFile(v, h) == [kind |-> "vars", vars |-> v, header |-> h]

(* commands:                                                                   *)
(*  [c |-> "print"]                                                            *)
(*  [c |-> "update", doc |-> "bad" / "unfit" / d, header |-> "" / "STA" / "XYZ"] *)
(*  [c |-> "extract", force]  [c |-> "thumb"]  [c |-> "convert"]               *)
GoodDoc(d) == d \notin {"bad", "unfit", "none"}
KnownHeader(h) == h = "STA"

(* what the command is to do to the directory [tgt, img]; "fail" leaves it *)
Fails == [fail |-> TRUE]
Effect(cmd, d) ==
    CASE cmd.c = "print" -> IF d.tgt.kind \in {"level", "vars", "cut"} THEN d ELSE Fails
      [] cmd.c = "update" ->
            IF ~GoodDoc(cmd.doc) THEN Fails
            ELSE IF cmd.header # "" THEN (IF KnownHeader(cmd.header) THEN [d EXCEPT !.tgt = VarFile(cmd.doc, cmd.header)] ELSE Fails)
            ELSE IF d.tgt.kind = "level" THEN [d EXCEPT !.tgt.vars = cmd.doc, !.tgt.taken = FALSE]
            ELSE IF d.tgt.kind = "vars" THEN [d EXCEPT !.tgt.vars = cmd.doc]
            ELSE Fails
      [] cmd.c = "extract" ->
            IF d.tgt.kind # "level" \/ (d.img.kind # "none" /\ ~cmd.force) THEN Fails
            ELSE [d EXCEPT !.img = [kind |-> "img", data |-> d.tgt.sshot]]
      [] cmd.c = "thumb" ->
            IF d.tgt.kind # "level" \/ d.img.kind # "img" THEN Fails
            ELSE [d EXCEPT !.tgt.sshot = d.img.data, !.tgt.taken = TRUE]
      [] cmd.c = "convert" -> Fails          \* needs an imaging library that is not there
=============================================================================
