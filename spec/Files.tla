------------------------------- MODULE Files -------------------------------
(* A data file is a header line and rows of cells, possibly followed by blank lines. With labels the first two       *)
(* columns are the identifier and the label, otherwise the first is the identifier; the others are features.         *)
(* A split is a rearrangement decided by size and seed alone, cut after the rounded-down share.                      *)
EXTENDS Integers, Sequences, FiniteSets
Skip(lab) == IF lab THEN 2 ELSE 1
From(q, k) == SubSeq(q, k + 1, Len(q))
Header(head, lab) == From(head, Skip(lab))
Ids(rows) == [i \in 1..Len(rows) |-> rows[i][1]]
Labels(rows) == [i \in 1..Len(rows) |-> rows[i][2]]
Feats(rows, lab) == [i \in 1..Len(rows) |-> From(rows[i], Skip(lab))]
Share(n, num, den) == (n * num) \div den
SetOf(q) == {q[i] : i \in 1..Len(q)}
=============================================================================
