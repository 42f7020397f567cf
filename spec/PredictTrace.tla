---------------------------- MODULE PredictTrace ----------------------------
EXTENDS Predict, TraceKit
NOLAB == 2000000000
TInitSt(t) == [task |-> t.task, S |-> Distinct(t.ys), ref |-> {}]
NearP(a, b) == AbsP(a - b) <= 3
SumP(q) == LET RECURSIVE go(_) go(i) == IF i = 0 THEN 0 ELSE go(i - 1) + q[i] IN go(Len(q))
Keys(q) == {q[i].key : i \in 1..Len(q)}
\* r: reported row; ps: probabilities of its scores by definition (for regression the score)
RowFails(s, r) ==
    Bad("a row holds four fields", r.shape = 1)
    \cup (IF r.shape # 1 THEN {} ELSE
       Bad("a row holds the sample's own label", r.label = r.own)
  \cup (IF s.task = "regression" THEN Bad("value and score are the summed score", NearP(r.score, r.ps[1]) /\ r.value = r.score /\ Len(r.det) = 1 /\ r.det[1][2] = r.score /\ r.names = <<"label">>)
        ELSE IF Cardinality(s.S) = 2 THEN
             Bad("the score is the probability of the larger class", NearP(r.score, r.ps[1]))
        \cup Bad("the larger class is predicted exactly above the threshold", r.value = Binary(s.S, r.cmp))
        \cup Bad("the two probabilities add up to one", r.whole = 1 /\ Len(r.det) = 2 /\ NearP(r.det[1][2] + r.det[2][2], 1000000) /\ r.det[2][2] = r.score /\ r.names = <<"0", "1">>)
        ELSE
             Bad("the detail pairs every class with its own probability", Len(r.det) = Cardinality(s.S) /\ \A i \in 1..Len(r.det) : r.det[i][1] = Class(s.S, i) /\ NearP(r.det[i][2], r.ps[i]))
        \cup Bad("the class of largest probability is predicted", \E i \in 1..Len(r.ps) : Class(s.S, i) = r.value /\ \A j \in 1..Len(r.ps) : r.ps[j] <= r.ps[i] + 2)
        \cup Bad("no other class is more probable by its own row", \E i \in 1..Len(r.top) : r.top[i] = r.value)
        \cup Bad("the probabilities add up to one", r.whole = 1)
        \cup Bad("the score is the largest probability", \E i \in 1..Len(r.ps) : NearP(r.score, r.ps[i]) /\ \A j \in 1..Len(r.ps) : r.ps[j] <= r.ps[i] + 2)
        \cup Bad("the probabilities add up to one", AbsP(SumP([i \in 1..Len(r.det) |-> r.det[i][2]]) - 1000000) <= 10)))
Fl(s, e) ==
    CASE e.op = "trained" -> Bad("training ends normally", e.out = "ok")
                        \cup Bad("class labels are the distinct training labels in order", (e.out = "ok" /\ s.task = "classification") => e.classes = [i \in 1..Cardinality(s.S) |-> Class(s.S, i)])
      [] e.op = "predict" ->
            IF e.out # "ok" THEN {"prediction ends normally"} ELSE
            Bad("exactly one row per sample under its key", Len(e.rows) = Len(e.keys) /\ Keys(e.rows) = {e.keys[i] : i \in 1..Len(e.keys)})
       \cup UNION {RowFails(s, e.rows[i]) : i \in 1..Len(e.rows)}
St(s, e) == s
Fin(s) == {}
=============================================================================
