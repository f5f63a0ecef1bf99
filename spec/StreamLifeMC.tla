--------------------------- MODULE StreamLifeMC ---------------------------
(* A writer in three layers: bits not yet forming a byte, a buffer put around *)
(* streams that have none of their own, and the stream itself.  Checked       *)
(* against StreamLife: what the stream holds and whether it is open.          *)
EXTENDS StreamLife, TLC, Json
CONSTANTS MaxOps, Emitting, Mutate
VARIABLES s, hist, noclose, wrapped, bits, buf, dev, devopen
vars == << s, hist, noclose, wrapped, bits, buf, dev, devopen >>
Ops == { [op |-> "write", bits |-> << 1, 0, 1 >>], [op |-> "write", bits |-> << 0, 1, 1, 0, 0, 1, 1, 0, 1 >>], [op |-> "flush"],
         [op |-> "release"], [op |-> "close"], [op |-> "exit"], [op |-> "raise"] }
Init == /\ noclose \in BOOLEAN /\ wrapped \in BOOLEAN /\ s = Born(noclose) /\ hist = << >>
        /\ bits = << >> /\ buf = << >> /\ dev = << >> /\ devopen = TRUE
Whole(bs) == SubSeq(bs, 1, 8 * (Len(bs) \div 8))
Rest(bs) == SubSeq(bs, 8 * (Len(bs) \div 8) + 1, Len(bs))
(* bytes go to the buffer if there is one *)
Put(bs) == IF wrapped THEN buf' = buf \o bs /\ dev' = dev ELSE dev' = dev \o bs /\ buf' = buf
Layer(op) ==
    CASE op.op = "write" -> LET all == bits \o op.bits IN bits' = Rest(all) /\ Put(Whole(all)) /\ UNCHANGED devopen
      [] op.op = "flush" -> bits' = << >> /\ Put(Padded(bits)) /\ UNCHANGED devopen
      [] op.op = "release" -> UNCHANGED << bits, buf, dev, devopen >>
      [] op.op \in Ends ->
           /\ bits' = << >>
           /\ IF Mutate /\ s.keep THEN Put(Padded(bits)) ELSE dev' = dev \o buf \o Padded(bits) /\ buf' = << >>
           /\ devopen' = (devopen /\ s.keep)
Do(op) == May(s, op) /\ s' = After(s, op) /\ hist' = Append(hist, op) /\ Layer(op) /\ UNCHANGED << noclose, wrapped >>
Next == Len(hist) < MaxOps /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
Complete == s.done => dev = s.sent
Ownership == devopen = s.open
Prefix == Len(dev) <= Len(s.sent) /\ dev = SubSeq(s.sent, 1, Len(dev))
Released == [][ (s.keep /\ s.open) => s'.open ]_vars
Emit == (Emitting /\ s.done) => PrintT("J " \o ToJson([noclose |-> noclose, ops |-> hist]))
=============================================================================
