------------------------------ MODULE HistTrace ------------------------------
EXTENDS Hist, TraceKit
TInitSt(t) == [c |-> t.case]
Rng(q) == {q[i] : i \in 1..Len(q)}
Shape(c, t) == Len(t) = Len(c.nodes) /\ \A i \in 1..Len(t) : Len(t[i]) = Len(c.nb) /\
               \A f \in 1..Len(c.nb) : (c.valid[f] = 1 => Len(t[i][f]) = c.nb[f])
\* features not in use may be reported, but only as empty
Same(c, t, want) == \A i \in 1..Len(t) : \A f \in 1..Len(c.nb) :
     IF c.valid[f] = 1 THEN t[i][f] = want[i][f] ELSE \A b \in 1..Len(t[i][f]) : t[i][f][b] = <<0, 0, 0>>
\* a feature marked open in c.known is one whose real bins alone may be compared
Fl(s, e) ==
    LET c == s.c IN
    CASE e.op = "error" -> Bad("histograms are computed without failing", FALSE)
      [] e.op \in {"hist", "part", "merge"} ->
              Bad("one histogram per node of the batch, feature and bin", Shape(c, e.t))
         \cup (IF Shape(c, e.t) THEN Bad("every bin holds the sums and number of exactly its samples", Same(c, e.t, Table(c, Rng(e.s)))) ELSE {})
      [] e.op = "acc" ->
              Bad("one histogram per node of the batch, feature and bin", Shape(c, e.t))
         \cup (IF Shape(c, e.t) THEN Bad("accumulated bins are running totals ending at the node total", Same(c, e.t, RunTable(c, Rng(e.s)))) ELSE {})
St(s, e) == s
Fin(s) == {}
=============================================================================
