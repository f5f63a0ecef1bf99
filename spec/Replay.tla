------------------------------- MODULE Replay -------------------------------
(* The Dustforce replay format, versions 1, 3 and 4.                            *)
(*                                                                              *)
(* Abstract replay                                                              *)
(*   [ver, user, named, level, frames, players, ents]                            *)
(*   named   the user-name header is present (user may still be empty)           *)
(*   player  [ch, st]   st[i] = runs << [v, n] >> of intent i, v as stored bits   *)
(*   entity  [uid, fr]  fr = << << frame, 10x, 10y, 100xs, 100ys >> >>            *)
(* A stream denotes the infinite sequence of its values followed by the neutral  *)
(* value; two run lists denote the same stream iff their normal forms are equal. *)
EXTENDS Zlib
CONSTANT ENDMARK              \* the count that ends a stream, 255 in the format

IntentBits == << 2, 2, 2, 2, 2, 4, 4, 4, 16, 16, 8 >>
IntentNeutral == << 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0 >>
NumIntents(ver) == IF ver >= 4 THEN 11 ELSE IF ver >= 3 THEN 8 ELSE 7
Versions == {1, 3, 4}
DFRPL == << 68, 70, 95, 82, 80, 76 >>
RFail == [ok |-> FALSE]
RHas(b, p, n) == n >= 0 /\ p + n <= NumBits(b)

(* ---------------- runs ---------------- *)
RECURSIVE NormR(_, _, _), DropTail(_, _)
NormR(rs, i, acc) ==
    IF i > Len(rs) THEN acc
    ELSE IF rs[i].n = 0 THEN NormR(rs, i + 1, acc)
    ELSE IF Len(acc) > 0 /\ acc[Len(acc)].v = rs[i].v
         THEN NormR(rs, i + 1, [acc EXCEPT ![Len(acc)].n = @ + rs[i].n])
         ELSE NormR(rs, i + 1, Append(acc, rs[i]))
DropTail(rs, def) == IF Len(rs) > 0 /\ rs[Len(rs)].v = def THEN SubSeq(rs, 1, Len(rs) - 1) ELSE rs
Norm(rs, def) == DropTail(NormR(rs, 1, << >>), def)
RECURSIVE LenR(_, _)
LenR(rs, i) == IF i > Len(rs) THEN 0 ELSE rs[i].n + LenR(rs, i + 1)
RunLen(rs) == LenR(rs, 1)

(* ---------------- tokens: first count, then (value, count) pairs, end ---------------- *)
(* The first count is the number of neutral frames; every later count is one     *)
(* less than the number of frames it stands for, and a count never is ENDMARK.   *)
ChunksOf(n, max) == [i \in 1..((n + max - 1) \div max) |-> MinOf(max, n - (i - 1) * max)]
RECURSIVE TokR(_, _, _)
TokR(rs, i, acc) ==
    IF i > Len(rs) THEN acc
    ELSE TokR(rs, i + 1, acc \o [k \in 1..Len(ChunksOf(rs[i].n, ENDMARK)) |-> [v |-> rs[i].v, c |-> ChunksOf(rs[i].n, ENDMARK)[k] - 1]])
Tokens(rs, def) ==
    LET z == Norm(rs, def)
        lead == IF Len(z) > 0 /\ z[1].v = def THEN z[1].n ELSE 0
        c0 == MinOf(lead, ENDMARK - 1)
        rest == IF lead > c0 THEN << [v |-> def, n |-> lead - c0] >> \o Tail(z) ELSE IF lead > 0 THEN Tail(z) ELSE z
    IN  [c0 |-> c0, toks |-> TokR(rest, 1, << >>)]
Untoken(t, def) == << [v |-> def, n |-> t.c0] >> \o [i \in 1..Len(t.toks) |-> [v |-> t.toks[i].v, n |-> t.toks[i].c + 1]]

(* ---------------- encoder ---------------- *)
EncStreamT(t, bits, def, slack) ==
    LET G(x) == EncU(bits, x.v) \o EncU(8, x.c)
        body == PadTo8(EncU(8, t.c0) \o Cat([i \in 1..Len(t.toks) |-> G(t.toks[i])]) \o EncU(bits, def) \o EncU(8, ENDMARK)) \o [i \in 1..(8 * slack) |-> 0]
    IN  Enc32(Len(body) \div 8) \o body
EncEnt(e, i) ==
    LET G(f) == Enc32(f[1]) \o Enc32(f[2]) \o Enc32(f[3]) \o Enc32(f[4]) \o Enc32(f[5])
    IN  Enc32(e.uid) \o Enc32(i - 1) \o Enc32(Len(e.fr)) \o Cat([k \in 1..Len(e.fr) |-> G(e.fr[k])])
(* T(p, i): the tokens chosen for player p, intent i *)
EncBlock(R, T(_, _), slack) ==
    LET n == NumIntents(R.ver)
        ins == Cat([p \in 1..Len(R.players) |-> Cat([i \in 1..n |-> EncStreamT(T(p, i), IntentBits[i], IntentNeutral[i], slack)])])
    IN  ToBytes(Enc32(Len(ins) \div 8) \o ins \o Enc32(Len(R.ents)) \o Cat([k \in 1..Len(R.ents) |-> EncEnt(R.ents[k], k)]))
EncReplay(R, T(_, _), slack) ==
    LET blk == EncBlock(R, T, slack)
    IN  (IF R.named THEN DFRPL \o << 50, Len(R.user) % 256, Len(R.user) \div 256 >> \o R.user ELSE << >>)
        \o DFRPL \o << 48 + R.ver >>
        \o ToBytes(EncU(16, Len(R.players)) \o Enc32(Len(blk)) \o Enc32(R.frames))
        \o [p \in 1..Len(R.players) |-> R.players[p].ch] \o << Len(R.level) >> \o R.level \o ZStore(blk)

(* ---------------- decoder ---------------- *)
RECURSIVE DecToks(_, _, _, _)
DecToks(b, p, bits, acc) ==          \* p at a value
    IF ~RHas(b, p, bits + 8) THEN RFail
    ELSE IF U(b, p + bits, 8) = ENDMARK THEN [ok |-> TRUE, rs |-> acc, p |-> p + bits + 8]
    ELSE DecToks(b, p + bits + 8, bits, Append(acc, [v |-> U(b, p, bits), n |-> U(b, p + bits, 8) + 1]))
DecStream(b, p, bits, def) ==
    IF ~RHas(b, p, 40) THEN RFail
    ELSE LET ln == I32(b, p)
             c0 == U(b, p + 32, 8)
         IN  IF ~RHas(b, p + 32, 8 * ln) THEN RFail
             ELSE IF c0 = ENDMARK THEN [ok |-> TRUE, rs |-> << >>, p |-> p + 32 + 8 * ln, tight |-> ln = 1]
             ELSE LET d == DecToks(b, p + 40, bits, << [v |-> def, n |-> c0] >>) IN
                  IF ~d.ok \/ d.p > p + 32 + 8 * ln THEN RFail
                  ELSE [ok |-> TRUE, rs |-> d.rs, p |-> p + 32 + 8 * ln, tight |-> AlignUp(d.p) = p + 32 + 8 * ln]
RECURSIVE DecStreams(_, _, _, _, _), DecPlayers(_, _, _, _, _), DecFrames(_, _, _, _), DecEnts(_, _, _, _)
DecStreams(b, p, i, n, acc) ==
    IF i > n THEN [ok |-> TRUE, st |-> acc.st, p |-> p, tight |-> acc.tight]
    ELSE LET d == DecStream(b, p, IntentBits[i], IntentNeutral[i]) IN
         IF ~d.ok THEN RFail ELSE DecStreams(b, d.p, i + 1, n, [st |-> Append(acc.st, Norm(d.rs, IntentNeutral[i])), tight |-> acc.tight /\ d.tight])
DecPlayers(b, p, k, n, acc) ==
    IF k = 0 THEN [ok |-> TRUE, ps |-> acc.ps, p |-> p, tight |-> acc.tight]
    ELSE LET d == DecStreams(b, p, 1, n, [st |-> << >>, tight |-> TRUE]) IN
         IF ~d.ok THEN RFail ELSE DecPlayers(b, d.p, k - 1, n, [ps |-> Append(acc.ps, d.st), tight |-> acc.tight /\ d.tight])
DecFrames(b, p, k, acc) ==
    IF k = 0 THEN acc
    ELSE DecFrames(b, p + 160, k - 1, Append(acc, << I32(b, p), I32(b, p + 32), I32(b, p + 64), I32(b, p + 96), I32(b, p + 128) >>))
DecEnts(b, p, k, acc) ==
    IF k = 0 THEN [ok |-> TRUE, es |-> acc, p |-> p]
    ELSE IF ~RHas(b, p, 96) THEN RFail
    ELSE LET nf == I32(b, p + 64) IN
         IF nf < 0 \/ ~RHas(b, p + 96, 160 * nf) \/ I32(b, p + 32) # Len(acc) THEN RFail
         ELSE DecEnts(b, p + 96 + 160 * nf, k - 1, Append(acc, [uid |-> I32(b, p), fr |-> DecFrames(b, p + 96, nf, << >>)]))
DecBlock(raw, ver, np) ==
    IF ~RHas(raw, 0, 32) THEN RFail
    ELSE LET d == DecPlayers(raw, 32, np, NumIntents(ver), [ps |-> << >>, tight |-> TRUE]) IN
         IF ~d.ok \/ ~RHas(raw, d.p, 32) \/ I32(raw, 0) # (d.p - 32) \div 8 THEN RFail
         ELSE LET e == DecEnts(raw, d.p + 32, I32(raw, d.p), << >>) IN
              IF ~e.ok \/ e.p # NumBits(raw) THEN RFail ELSE [ok |-> TRUE, ps |-> d.ps, es |-> e.es, tight |-> d.tight]
(* zlib blocks by offset, as in LevelFile *)
RBlob(b, o, blobs) ==
    IF \E i \in 1..Len(blobs) : blobs[i].o = o
    THEN LET i == CHOOSE i \in 1..Len(blobs) : blobs[i].o = o IN [ok |-> TRUE, raw |-> blobs[i].raw, n |-> blobs[i].n]
    ELSE LET n == IF o + 11 <= Len(b) THEN b[o + 4] + 256 * b[o + 5] + 11 ELSE 0 IN
         IF Stored(b, o, n) THEN [ok |-> TRUE, raw |-> SubSeq(b, o + 8, o + n - 4), n |-> n] ELSE RFail
DecReplay(b, blobs) ==
    IF ~RHas(b, 0, 8 * 9) \/ SubSeq(b, 1, 6) # DFRPL THEN RFail
    ELSE LET named == b[7] = 50
             ul == IF named THEN b[8] + 256 * b[9] ELSE 0
             h == IF named THEN 9 + ul ELSE 0                 \* byte offset of the second magic
         IN  IF ~RHas(b, 8 * h, 8 * 18) \/ SubSeq(b, h + 1, h + 6) # DFRPL \/ b[h + 7] - 48 \notin Versions THEN RFail
             ELSE LET ver == b[h + 7] - 48
                      np == U(b, 8 * (h + 7), 16)
                      q == h + 17                               \* characters
                  IN  IF ~RHas(b, 8 * q, 8 * (np + 1)) \/ (ver = 1 /\ np # 1) THEN RFail
                      ELSE LET ll == b[q + np + 1]
                               o == q + np + 1 + ll
                               z == IF o > Len(b) THEN RFail ELSE RBlob(b, o, blobs)
                           IN  IF ~z.ok THEN RFail
                               ELSE LET d == DecBlock(z.raw, ver, np) IN
                                    IF ~d.ok \/ I32(b, 8 * (h + 9)) # Len(z.raw) THEN RFail
                                    ELSE [ok |-> TRUE, end |-> o + z.n, tight |-> d.tight,
                                          r |-> [ver |-> ver, user |-> SubSeq(b, 10, 9 + ul), named |-> named, level |-> SubSeq(b, q + np + 2, o),
                                                 frames |-> I32(b, 8 * (h + 13)),
                                                 players |-> [p \in 1..np |-> [ch |-> b[q + p], st |-> d.ps[p]]], ents |-> d.es]]
=============================================================================
