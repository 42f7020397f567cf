------------------------------- MODULE Framing -------------------------------
(* One direction of one connection. Frames are laid end to end in a byte stream; the network hands the      *)
(* receiver arbitrary non-empty pieces; the peer may close after any byte. Positions are byte offsets.      *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE EndOf(_, _)
EndOf(sizes, i) == IF i = 0 THEN 0 ELSE EndOf(sizes, i - 1) + sizes[i]
\* abstract state of a connection: frame sizes sent so far, bytes handed over, messages delivered, end of stream
\* (-1: still open), whether the receiver reported failure
FInit == [sizes |-> <<>>, pos |-> 0, delivered |-> 0, cut |-> 0 - 1, failed |-> FALSE]
Avail(s) == IF s.cut >= 0 THEN s.cut ELSE EndOf(s.sizes, Len(s.sizes))
NextEnd(s) == EndOf(s.sizes, s.delivered + 1)
CanDeliver(s) == s.delivered < Len(s.sizes) /\ NextEnd(s) <= Avail(s)
MustFail(s) == ~CanDeliver(s) /\ s.cut >= 0
FStep(s, e) ==
    CASE e.op = "send" -> [s EXCEPT !.sizes = Append(@, e.n)]
      [] e.op = "close" -> [s EXCEPT !.cut = e.n]
      [] e.op = "read" -> [s EXCEPT !.pos = @ + e.n]
      [] e.op = "recv" -> IF e.out = "ok" THEN [s EXCEPT !.delivered = @ + 1] ELSE [s EXCEPT !.failed = TRUE]
=============================================================================
