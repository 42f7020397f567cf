------------------------------ MODULE Predict ------------------------------
(* From scores to reported rows. Labels are integers whose order is the order of the labels.                         *)
EXTENDS Integers, Sequences, FiniteSets
Distinct(q) == {q[i] : i \in 1..Len(q)}
\* the i-th smallest label
Rank(S, x) == Cardinality({y \in S : y < x}) + 1
Class(S, i) == CHOOSE x \in S : Rank(S, x) = i
Best(q, i) == \A j \in 1..Len(q) : q[j] <= q[i]
\* two classes: cmp is the sign of probability minus threshold
Binary(S, cmp) == IF cmp > 0 THEN Class(S, 2) ELSE Class(S, 1)
AbsP(x) == IF x < 0 THEN 0 - x ELSE x
=============================================================================
