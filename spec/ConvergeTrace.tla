---------------------------- MODULE ConvergeTrace ----------------------------
(* Objects of one kind fed in an interleaving; numbers as in Converge. *)
EXTENDS Converge, TraceKit
TInitSt(t) == [kind |-> t.kind, num |-> t.num, den |-> t.den, h |-> [o \in 1..t.objs |-> <<>>]]
Fl(s, e) ==
    IF e.op = "norm" THEN Bad("the norm is the norm", e.got = e.want) ELSE
    IF e.out # "ok" THEN {"the criterion answers"} ELSE
    LET h == Append(s.h[e.o], e.v) r == (e.r = 1) IN
    CASE s.kind = "diff" -> Bad("converged exactly when the last two losses differ by less than the tolerance", r = Diff(h, s.num))
      [] s.kind = "abs" -> Bad("converged exactly when the loss is at most the tolerance", r = AbsC(h, s.num))
      [] s.kind = "weight" -> Bad("converged exactly when the weights moved by less than the tolerance allows", Tie(h, s.num, s.den) \/ r = Weight(h, s.num, s.den))
St(s, e) == IF e.op = "feed" THEN [s EXCEPT !.h[e.o] = Append(@, e.v)] ELSE s
Fin(s) == {}
=============================================================================
