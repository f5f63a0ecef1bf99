---------------------------- MODULE StreamLife ----------------------------
(* Who owns the stream under a bit reader or writer, when it is closed, and   *)
(* what it holds afterwards.                                                  *)
(*   keep    the stream was given with noclose or has been released           *)
(*   open    the stream is open                                               *)
(*   done    the reader or writer has been closed                             *)
(*   sent    the bits handed to the writer so far                             *)
EXTENDS Integers, Sequences
RECURSIVE Zeros(_)
Zeros(n) == IF n = 0 THEN << >> ELSE << 0 >> \o Zeros(n - 1)
Padded(bs) == bs \o Zeros((8 - (Len(bs) % 8)) % 8)
RECURSIVE BitVal(_)
BitVal(bs) == IF bs = << >> THEN 0 ELSE bs[1] + 2 * BitVal(Tail(bs))
RECURSIVE Bytes(_)
Bytes(bs) == IF bs = << >> THEN << >> ELSE << BitVal(SubSeq(bs, 1, 8)) >> \o Bytes(SubSeq(bs, 9, Len(bs)))
Ends == {"close", "exit", "raise"}
Born(noclose) == [keep |-> noclose, open |-> TRUE, done |-> FALSE, sent |-> << >>]
After(s, op) ==
    CASE op.op = "write" -> [s EXCEPT !.sent = @ \o op.bits]
      [] op.op = "flush" -> [s EXCEPT !.sent = Padded(@)]
      [] op.op = "release" -> [s EXCEPT !.keep = TRUE]
      [] op.op = "read" -> s
      [] op.op \in Ends -> [s EXCEPT !.open = @ /\ s.keep, !.done = TRUE, !.sent = Padded(@)]
(* what may be done next: nothing is written or read once it has been closed *)
May(s, op) == s.done => op.op \in Ends \cup {"release"}
=============================================================================
