----------------------------- MODULE SketchTrace -----------------------------
EXTENDS Sketch, TraceKit
\* b: bag of accepted values, z: zeros which were not inserted (sparse form)
TInitSt(t) == [en |-> t.en, ed |-> t.ed, b |-> <<>>, z |-> 0]
RECURSIVE AddAll(_, _, _)
AddAll(b, q, i) == IF i > Len(q) THEN b ELSE AddAll(BagAdd(b, q[i][1], q[i][2]), q, i + 1)
Whole(s) == IF s.z = 0 THEN s.b ELSE BagAdd(s.b, 0, s.z)
Lowest(b) == CHOOSE v \in DOMAIN b : \A w \in DOMAIN b : v <= w
Highest(b) == CHOOSE v \in DOMAIN b : \A w \in DOMAIN b : v >= w
Fl(s, e) ==
    CASE e.op = "insert" -> Bad(IF e.kind = "num" THEN "numbers are accepted" ELSE "abnormal and non-numeric values are ignored", e.out = "ok")
      [] e.op = "many" -> Bad("numbers are accepted", e.out = "ok")
      [] e.op = "touch" -> Bad("compression and queries in between succeed", e.out = "ok")
      [] e.op = "zeros" -> {}
      [] e.op = "count" -> Bad("every accepted value is counted", e.c = BagSize(s.b))
      [] e.op = "query" ->
            IF e.qn < 0 \/ e.qn > e.qd THEN Bad("a quantile outside zero to one is refused", e.out \notin {"ok", "hang"})
            ELSE IF BagSize(Whole(s)) = 0 THEN Bad("a query of an empty sketch ends", e.out # "hang")
            ELSE Bad(IF s.z = 0 THEN "a query returns an input of nearly the right rank" ELSE "a sparse query counts the unseen zeros",
                     e.out = "ok" /\ BagGood(Whole(s), e.x, e.qn, e.qd, s.en, s.ed))
      [] e.op = "kept" -> Bad("a sketch merged into another one answers as before", e.same = 1)
      [] e.op = "samples" ->
            Bad("kept samples are sorted", \A i \in 1..Len(e.s) - 1 : e.s[i] <= e.s[i + 1])
       \cup Bad("kept samples are inputs", \A i \in 1..Len(e.s) : e.s[i] \in DOMAIN s.b)
       \cup Bad("the smallest and largest input are kept", BagSize(s.b) > 0 => e.s # <<>> /\ e.s[1] = Lowest(s.b) /\ e.s[Len(e.s)] = Highest(s.b))
St(s, e) ==
    CASE e.op = "insert" -> IF e.kind = "num" THEN [s EXCEPT !.b = BagAdd(@, e.x, 1)] ELSE s
      [] e.op = "many" -> [s EXCEPT !.b = AddAll(@, e.items, 1)]
      [] e.op = "zeros" -> [s EXCEPT !.z = e.z]
      [] OTHER -> s
Fin(s) == {}
=============================================================================
