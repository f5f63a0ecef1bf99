------------------------------ MODULE ReplayMC ------------------------------
(* Streams built run by run; at every step the tokens are legal, stand for the  *)
(* stream and the bytes decode to it.  Also a file with arbitrary legal          *)
(* tokenisations (what another writer may produce).                              *)
EXTENDS Replay, TLC, Json, FiniteSets
CONSTANTS LENS, VALS, DEPTH, INTENT, Mutate
VARIABLES rs, toks, mode
(* mode "runs": rs grows by runs; mode "toks": toks grows by tokens *)
Def == IntentNeutral[INTENT]
B == IntentBits[INTENT]
Init == \/ mode = "runs" /\ rs = << >> /\ toks = [c0 |-> 0, toks |-> << >>]
        \/ mode = "toks" /\ rs = << >> /\ \E c \in {0, 1, ENDMARK - 1} : toks = [c0 |-> c, toks |-> << >>]
AddRun == mode = "runs" /\ Len(rs) < DEPTH /\ \E v \in VALS, n \in LENS : rs' = Append(rs, [v |-> v, n |-> n]) /\ UNCHANGED << toks, mode >>
AddTok == mode = "toks" /\ Len(toks.toks) < DEPTH /\ \E v \in VALS, c \in {0, 1, ENDMARK - 1} :
              toks' = [toks EXCEPT !.toks = Append(@, [v |-> v, c |-> c])] /\ UNCHANGED << rs, mode >>
Next == AddRun \/ AddTok
Cur == IF mode = "runs" THEN Tokens(rs, Def) ELSE toks
Meant == IF mode = "runs" THEN rs ELSE Untoken(toks, Def)
LegalTokens == LET t == Cur IN t.c0 \in 0..(ENDMARK - 1) /\ \A i \in 1..Len(t.toks) : t.toks[i].c \in 0..(ENDMARK - 1)
Faithful == Norm(Untoken(Cur, Def), Def) = Norm(IF Mutate THEN [i \in 1..Len(Meant) |-> [Meant[i] EXCEPT !.n = MinOf(@, ENDMARK + 1)]] ELSE Meant, Def)
Decodes == LET bytes == ToBytes(EncStreamT(Cur, B, Def, 0))
               d == DecStream(bytes, 0, B, Def)
           IN  d.ok /\ d.tight /\ Norm(d.rs, Def) = Norm(Meant, Def) /\ d.p = NumBits(bytes)
OnlyTrailingNeutralDropped ==
    LET d == RunLen(Norm(Meant, Def)) IN d <= RunLen(Meant) /\ (d < RunLen(Meant) => NormR(Meant, 1, << >>)[Len(NormR(Meant, 1, << >>))].v = Def)
(* a whole file around the stream *)
FileOf(ver, np, named) ==
    [ver |-> ver, user |-> IF named THEN << 65, 0 >> ELSE << >>, named |-> named, level |-> << 120, 255 >>, frames |-> -1,
     players |-> [p \in 1..np |-> [ch |-> p, st |-> [i \in 1..NumIntents(ver) |-> IF i = INTENT THEN Norm(Meant, Def) ELSE << >>]]],
     ents |-> << [uid |-> 3, fr |-> << << 1, -20, 30, -2147483647, 2147483647 >>, << 9, 0, 0, 0, 0 >> >>], [uid |-> -1, fr |-> << >>] >>]
FileDecodes ==
    \A c \in {<< 1, 1, FALSE >>, << 3, 2, TRUE >>, << 4, 1, TRUE >>, << 4, 0, FALSE >>} :
        LET R == FileOf(c[1], c[2], c[3])
            T(p, i) == IF i = INTENT THEN Cur ELSE [c0 |-> 0, toks |-> << >>]
            b == EncReplay(R, T, 0)
            d == DecReplay(b, << >>)
        IN  d.ok /\ d.r = R /\ d.end = Len(b) /\ d.tight
Emit == PrintT("J " \o ToJson([mode |-> mode, intent |-> INTENT, rs |-> Meant, toks |-> Cur]))
=============================================================================
