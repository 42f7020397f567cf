------------------------------ MODULE StatsTrace ------------------------------
(* Statistics reported for the columns of a table (or for parts of it, combined). Means, extremes and          *)
(* deviations in millionths, quantile points in quarters; tiny: the real column is 1024 times smaller.          *)
EXTENDS Stats, TraceKit
TInitSt(t) == [cols |-> [c \in 1..Len(t.cols) |-> Accepted(t.cols[c], t.abn)], sel |-> t.sel]
SetOf(q) == {q[k] : k \in 1..Len(q)}
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
NearI(a, b, t) == a < b + t /\ a > b - t
TFails(s, e) ==
    CASE e.op = "stat" /\ e.out # "ok" -> {"statistics are given for every column"}
      [] e.op = "stat" /\ e.out = "ok" -> LET h == s.cols[e.c] IN
           (CASE e.what = "max" -> Bad("the maximum is that of the column", e.v = SMax(h) * 250000)
              [] e.what = "min" -> Bad("the minimum is that of the column", e.v = SMin(h) * 250000)
              [] e.what = "mean" -> Bad("the mean is that of the column", NearI(e.v, Mean(h), 20))
              [] e.what = "var" /\ e.tiny = 0 -> Bad("the variance is that of the column", NearI(e.v, Var(h), 20) /\ (Spread(h) = 0 => e.z = 1))
              [] e.what = "var" /\ e.tiny = 1 -> Bad("tiny variances are zero", IF Var(h) < 1000000 THEN e.z = 1 ELSE Var(h) > 1100000 => NearI(e.v, Var(h) \div 1048576, 2))
              [] e.what = "std" -> LET a == e.v \div 1000 IN
                    Bad("the standard deviation is the root of the variance", IF Spread(h) = 0 \/ (e.tiny = 1 /\ Var(h) < 1000000) THEN e.z = 1
                        ELSE IF e.tiny = 1 /\ Var(h) <= 1100000 /\ e.z = 1 THEN TRUE
                        ELSE e.v >= 0 /\ a < 40000 /\ (a - 1) * (a - 1) <= Var(h) /\ Var(h) <= (a + 2) * (a + 2))
              [] e.what = "quantile" -> Bad("quantile points are values of nearly the right rank", Good(h, e.v, e.qn, e.qd, 1, 1000))
              [] e.what = "median" -> Bad("medians are values of nearly the right rank", Good(h, e.v, 1, 2, 1, 1000)))
      [] e.op = "keys" -> Bad("exactly the selected columns asked for are reported", SetOf(e.got) = SetOf(s.sel) \cap SetOf(e.asked) /\ Len(e.got) = Cardinality(SetOf(e.got)))
      [] e.op = "refuse" -> Bad("a selection that does not exist is refused", e.out \notin {"ok", "hang"})
      [] e.op = "kept" -> Bad("the data and the other part are left as they were", e.same = 1)
TStep(s, e) == s
TFinal(s) == {}
=============================================================================
