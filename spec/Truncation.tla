----------------------------- MODULE Truncation -----------------------------
(* Reading a file that was cut off.  A file is a sequence of items:             *)
(*   << "fix", n >>   n bytes                                                    *)
(*   << "cnt", k, n >> one count byte saying k, then k records of n bytes         *)
(*   << "zip", n >>   a self-terminating block of n bytes, read byte by byte      *)
(* The reader sees only the first `cut` bytes.  A read that hits the end either   *)
(* fails or gives a short (zero-filled) result; it never gives more data.         *)
(* A short result can only make a count smaller, so every loop stays bounded by   *)
(* the file; a self-terminating block has no such bound, so the end of the stream *)
(* has to be an error there.                                                      *)
EXTENDS Integers, Sequences
CONSTANTS MaxItems, Mutate
Items == {<< "fix", 2 >>, << "cnt", 2, 1 >>, << "cnt", 0, 1 >>, << "zip", 1 >>, << "zip", 3 >>}
Size(it) == CASE it[1] = "fix" -> it[2] [] it[1] = "cnt" -> 1 + it[2] * it[3] [] it[1] = "zip" -> it[2]
RECURSIVE Total(_)
Total(f) == IF f = << >> THEN 0 ELSE Size(Head(f)) + Total(Tail(f))
VARIABLES file, cut, pos, at, left, pc, tick
vars == << file, cut, pos, at, left, pc, tick >>
Files == UNION {[1..n -> Items] : n \in 1..MaxItems}
Init == /\ file \in Files /\ cut \in 0..Total(file) /\ pos = 0 /\ at = 1 /\ left = 0 /\ pc = "item" /\ tick = FALSE
Err == pc' = "error" /\ UNCHANGED << file, cut, pos, at, left, tick >>
Advance(n) == pos' = IF pos + n <= cut THEN pos + n ELSE cut
Short(n) == pos + n > cut
IsReplay == file[Len(file)][1] = "zip"
NextItem == at' = at + 1 /\ pc' = IF at = Len(file) THEN "ok" ELSE "item"
StartItem ==
    /\ pc = "item"
    /\ LET it == file[at] IN
       CASE it[1] = "fix" -> \/ Short(it[2]) /\ Err
                             \/ Advance(it[2]) /\ NextItem /\ UNCHANGED << file, cut, left, tick >>
         [] it[1] = "cnt" -> \/ Short(1) /\ Err
                             \/ Advance(1) /\ left' = (IF Short(1) THEN 0 ELSE it[2]) /\ pc' = "records" /\ UNCHANGED << file, cut, at, tick >>
         [] it[1] = "zip" -> left' = it[2] /\ pc' = "zip" /\ UNCHANGED << file, cut, pos, at, tick >>
Record ==
    /\ pc = "records"
    /\ IF left = 0 THEN NextItem /\ UNCHANGED << file, cut, pos, left, tick >>
       ELSE \/ Short(file[at][3]) /\ Err
            \/ Advance(file[at][3]) /\ left' = left - 1 /\ UNCHANGED << file, cut, at, pc, tick >>
ZipByte ==
    /\ pc = "zip"
    /\ IF left = 0 THEN NextItem /\ UNCHANGED << file, cut, pos, left, tick >>
       ELSE IF ~Short(1) THEN pos' = pos + 1 /\ left' = left - 1 /\ UNCHANGED << file, cut, at, pc, tick >>
       ELSE IF Mutate THEN tick' = ~tick /\ UNCHANGED << file, cut, pos, at, left, pc >>   \* asks again for a byte
       ELSE Err
Next == StartItem \/ Record \/ ZipByte
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>(pc \in {"ok", "error"})
CutReplayIsError == (IsReplay /\ cut < Total(file) /\ pc = "ok") => FALSE
WholeFileReads == cut = Total(file) => pc # "error"
=============================================================================
