----------------------------- MODULE PredictMC -----------------------------
(* The reporting procedure (sorted list of classes, comparison, arg max, pairing) against the specification, for all *)
(* small training label sequences and probability vectors; also generates label sets and thresholds for replay.      *)
EXTENDS Predict, TLC, Json
CONSTANTS LABELS, LEN, GRID, FAULT, GENERATE
VARIABLES ph, ys, pr, thr
vars == <<ph, ys, pr, thr>>
Init == ph = "labels" /\ ys = <<>> /\ pr = <<>> /\ thr = 0
Labels == /\ ph = "labels" /\ \E n \in 2..LEN : \E q \in [1..n -> LABELS] : ys' = q /\ Cardinality(Distinct(q)) >= 2
          /\ ph' = "probs" /\ UNCHANGED <<pr, thr>>
Probs == /\ ph = "probs" /\ \E q \in [1..Cardinality(Distinct(ys)) -> 0..GRID], t \in 0..GRID : pr' = q /\ thr' = t
         /\ ph' = "done" /\ UNCHANGED ys
Next == Labels \/ Probs
Spec == Init /\ [][Next]_vars
K == Cardinality(Distinct(ys))
\* procedure
RECURSIVE Seen(_, _)
Seen(q, i) == IF i = 0 THEN <<>> ELSE LET r == Seen(q, i - 1) IN IF \E j \in 1..Len(r) : r[j] = q[i] THEN r ELSE Append(r, q[i])
RECURSIVE Insert(_, _)
Insert(q, x) == IF q = <<>> THEN <<x>> ELSE IF x < Head(q) THEN <<x>> \o q ELSE <<Head(q)>> \o Insert(Tail(q), x)
RECURSIVE SortQ(_)
SortQ(q) == IF q = <<>> THEN <<>> ELSE Insert(SortQ(Tail(q)), Head(q))
Classes == IF FAULT = "unsorted" THEN Seen(ys, Len(ys)) ELSE SortQ(Seen(ys, Len(ys)))
RECURSIVE ArgMax(_, _, _)
ArgMax(q, i, b) == IF i > Len(q) THEN b ELSE ArgMax(q, i + 1, IF q[i] > q[b] THEN i ELSE b)
PBinary == IF FAULT = "atleast" THEN (IF pr[2] >= thr THEN Classes[2] ELSE Classes[1]) ELSE IF pr[2] > thr THEN Classes[2] ELSE Classes[1]
PMulti == IF FAULT = "index" THEN ArgMax(pr, 1, 1) - 1 ELSE Classes[ArgMax(pr, 1, 1)]
D == ph = "done"
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN 0 - 1 ELSE 0
TwoClasses == (D /\ K = 2) => PBinary = Binary(Distinct(ys), Sign(pr[2] - thr))
ManyClasses == (D /\ K > 2) => \E i \in 1..K : Best(pr, i) /\ PMulti = Class(Distinct(ys), i)
Pairing == D => \A i \in 1..K : Classes[i] = Class(Distinct(ys), i)
=============================================================================
