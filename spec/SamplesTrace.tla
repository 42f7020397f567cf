----------------------------- MODULE SamplesTrace -----------------------------
EXTENDS Samples, TraceKit
TInitSt(t) == [x |-> 0]
SetOf(q) == {q[k] : k \in 1..Len(q)}
Big == 1000
Fl(s, e) ==
    CASE e.op = "sparse" -> LET want == IF e.from = "dense" THEN Stored(e.d) ELSE SetOf(e.d) IN
              Bad("making a sparse vector succeeds", e.out = "ok")
         \cup (IF e.out # "ok" THEN {} ELSE
                   Bad("a sparse vector lists exactly what it stores", SetOf(e.stored) = want /\ Len(e.stored) = Cardinality(want))
              \cup Bad("a sparse vector keeps the width", e.shape = e.width)
              \cup Bad("a sparse vector counts what it stores and what it lacks", e.nz = Cardinality(want) /\ e.z = e.width - Cardinality(want))
              \cup Bad("every position answers its value or the default given",
                       \A k \in 1..Len(e.gets) : LET g == e.gets[k] IN g[3] = Answer(want, g[1], g[2])))
      [] e.op = "row" -> Bad("identifier, weight and label stay with the sample", e.out = "ok" /\ e.got = e.want)
      [] e.op = "labels" ->
              Bad("too many classes are refused, others accepted", e.out \notin {"hang"} /\ (e.out = "ok") = ~TooMany(e.ls, Big))
         \cup Bad("every distinct label is found once", e.out = "ok" => SetOf(e.found) = Classes(e.ls) /\ Len(e.found) = Cardinality(Classes(e.ls)))
         \cup Bad("the number of classes is reported", e.out = "ok" => e.n = Cardinality(Classes(e.ls)))
      [] e.op = "many" ->
              Bad("too many classes are refused, others accepted", e.out # "hang" /\ (e.out = "ok") = (e.k <= Big))
         \cup Bad("the number of classes is reported", e.out = "ok" => e.n = e.k /\ e.found = e.k)
      [] e.op = "numeric" -> Bad("a regression task accepts exactly labels that read as numbers", e.out # "hang" /\ (e.out = "ok") = (e.bad = 0))
      [] e.op = "empty" -> Bad("an empty table is refused and no other", e.out # "hang" /\ (e.out = "ok") = (e.n > 0))
      [] e.op = "held" -> Bad("a sample holds what was last set", e.got = e.want)
      [] e.op = "plus" -> Bad("partial results add up position by position", e.out = "ok" /\ e.got = Plus(e.x, e.y))
      [] e.op = "dot" -> Bad("dot products follow their definition",
                e.out = "ok" /\ Len(e.got) = Len(e.rows) /\ \A k \in 1..Len(e.rows) : e.got[k] = DotOf(e.rows[k], e.w))
      [] e.op = "mat" -> Bad("dot products follow their definition",
                e.out = "ok" /\ Len(e.got) = Len(e.rows) /\ \A k \in 1..Len(e.rows) : Len(e.got[k]) = Len(e.w) /\ \A c \in 1..Len(e.w) : e.got[k][c] = DotOf(e.rows[k], e.w[c]))
      [] e.op = "norm" ->
              IF e.p = 0 THEN Bad("a p below one is refused", e.out \notin {"ok", "hang"})
              ELSE Bad("norms follow their definition", e.out = "ok" /\ e.got = (IF e.p = 99 THEN Largest(e.v) ELSE NormPow(e.v, e.p)))
St(s, e) == s
Fin(s) == {}
=============================================================================
