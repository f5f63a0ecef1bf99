------------------------------ MODULE CliFileMC ------------------------------
EXTENDS CliFile, TLC, Json
CONSTANTS MaxCmds, Emitting, Mutate
VARIABLES pc, dir, cmd, buf, start, hist, rc
vars == << pc, dir, cmd, buf, start, hist, rc >>
NoCmd == [c |-> "none"]
Kinds == { NoFile, Level("v0", "s0", "r0", FALSE), VarFile("v0", "CFG"), [kind |-> "cut"], [kind |-> "other"] }
Imgs == { NoFile, [kind |-> "img", data |-> "i0"] }
Cmds == { [c |-> "print"], [c |-> "extract", force |-> FALSE], [c |-> "extract", force |-> TRUE], [c |-> "thumb"], [c |-> "convert"] }
        \cup { [c |-> "update", doc |-> d, header |-> h] : d \in {"bad", "unfit", "v1"}, h \in {"", "STA", "XYZ"} }
Init == /\ pc = "idle" /\ cmd = NoCmd /\ buf = NoFile /\ hist = << >> /\ rc = "none"
        /\ dir \in { [tgt |-> t, img |-> i] : t \in Kinds, i \in Imgs }
        /\ start = dir
Empty == [kind |-> "empty"]
Begin == /\ pc = "idle" /\ Len(hist) < MaxCmds
         /\ \E c \in Cmds : cmd' = c /\ hist' = Append(hist, c)
         /\ pc' = "read" /\ start' = dir /\ buf' = NoFile /\ rc' = "none" /\ UNCHANGED dir
Fail == pc' = "idle" /\ rc' = "fail" /\ UNCHANGED << dir, cmd, buf, start, hist >>
Go(p) == pc' = p /\ UNCHANGED << dir, cmd, start, hist, rc >>
(* read the target *)
NeedsLevel == cmd.c \in {"extract", "thumb", "convert"}
Read == /\ pc = "read"
        /\ IF cmd.c = "update" /\ cmd.header # "" THEN (IF KnownHeader(cmd.header) THEN Go("input") /\ UNCHANGED buf ELSE Fail)
           ELSE IF NeedsLevel /\ dir.tgt.kind # "level" THEN Fail
           ELSE IF dir.tgt.kind \notin {"level", "vars", "cut"} THEN Fail
           ELSE IF cmd.c = "print" THEN pc' = "idle" /\ rc' = "ok" /\ UNCHANGED << dir, cmd, buf, start, hist >>
           ELSE IF cmd.c = "extract" /\ dir.img.kind # "none" /\ ~cmd.force THEN Fail
           ELSE buf' = dir.tgt /\ Go(IF Mutate THEN "open" ELSE "input")
(* read the document or image *)
Input == /\ pc = "input"
         /\ CASE cmd.c = "update" -> IF cmd.doc = "bad" THEN Fail ELSE Go("encode") /\ UNCHANGED buf
              [] cmd.c = "thumb" -> IF dir.img.kind # "img" THEN Fail ELSE Go("encode") /\ UNCHANGED buf
              [] cmd.c = "convert" -> Fail
              [] cmd.c = "extract" -> Go("encode") /\ UNCHANGED buf
(* encode the new content *)
Encode == /\ pc = "encode"
          /\ CASE cmd.c = "update" ->
                    IF cmd.doc = "unfit" \/ buf.kind = "cut" THEN Fail
                    ELSE buf' = (IF cmd.header # "" THEN VarFile(cmd.doc, cmd.header)
                                 ELSE IF buf.kind = "level" THEN [buf EXCEPT !.vars = cmd.doc, !.taken = FALSE] ELSE [buf EXCEPT !.vars = cmd.doc])
                         /\ Go(IF Mutate /\ cmd.header = "" THEN "write" ELSE "open")
               [] cmd.c = "thumb" -> buf' = [buf EXCEPT !.sshot = dir.img.data, !.taken = TRUE] /\ Go(IF Mutate THEN "write" ELSE "open")
               [] cmd.c = "extract" -> buf' = [kind |-> "img", data |-> buf.sshot] /\ Go(IF Mutate THEN "write" ELSE "open")
Place(d, x) == IF cmd.c = "extract" THEN [d EXCEPT !.img = x] ELSE [d EXCEPT !.tgt = x]
Open == /\ pc = "open" /\ dir' = Place(dir, Empty)
        /\ pc' = IF Mutate /\ ~(cmd.c = "update" /\ cmd.header # "") THEN "input" ELSE "write"
        /\ UNCHANGED << cmd, buf, start, hist, rc >>
Write == /\ pc = "write" /\ dir' = Place(dir, buf) /\ pc' = "idle" /\ rc' = "ok"
         /\ UNCHANGED << cmd, buf, start, hist >>
Next == Begin \/ Read \/ Input \/ Encode \/ Open \/ Write
Spec == Init /\ [][Next]_vars

Done == pc = "idle" /\ rc # "none"
Exact == Done => (IF Effect(cmd, start) = Fails THEN rc = "fail" /\ dir = start ELSE rc = "ok" /\ dir = Effect(cmd, start))
(* consequences the users care about *)
FailKeeps == (Done /\ rc = "fail") => dir = start
RegionsKept == (dir.tgt.kind = "level" /\ start.tgt.kind = "level") => dir.tgt.regs = start.tgt.regs
ExtractKeepsLevel == (Done /\ cmd.c \in {"extract", "print"}) => dir.tgt = start.tgt
NoOverwrite == (Done /\ cmd.c = "extract" /\ ~cmd.force /\ start.img.kind # "none") => dir.img = start.img
Emit == (Emitting /\ pc = "idle" /\ Len(hist) = MaxCmds) => PrintT("J " \o ToJson([hist |-> hist]))
=============================================================================
