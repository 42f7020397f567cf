------------------------------ MODULE Samples ------------------------------
(* Samples, sparse vectors and labels. Dense features are sequences of codes (units of 2^-20, so that codes -1, 0 *)
(* and 1 lie within a millionth of zero); a sparse vector is the set of <<position, code>> pairs it stores          *)
(* (positions from 0) and its width.                                                                               *)
EXTENDS Integers, Sequences, FiniteSets
Mag(x) == IF x < 0 THEN 0 - x ELSE x
Kept(d) == {i \in 1..Len(d) : Mag(d[i]) >= 2}
Stored(d) == {<<i - 1, d[i]>> : i \in Kept(d)}
\* what a sparse vector answers at a position
Answer(st, pos, def) == IF \E p \in st : p[1] = pos THEN (CHOOSE p \in st : p[1] = pos)[2] ELSE def
\* the distinct labels of a table and whether there are too many
Classes(ls) == {ls[i] : i \in 1..Len(ls)}
TooMany(ls, limit) == Cardinality(Classes(ls)) > limit
\* partial results: <<>> is no result, <<x>> the result x (a number, or numbers position by position)
RECURSIVE Plus(_, _)
Plus(x, y) == IF x = <<>> THEN y ELSE IF y = <<>> THEN x ELSE <<[i \in 1..Len(x[1]) |-> x[1][i] + y[1][i]]>>
RECURSIVE SumTo(_, _)
SumTo(q, n) == IF n = 0 THEN 0 ELSE SumTo(q, n - 1) + q[n]
RECURSIVE Pow(_, _)
Pow(x, p) == IF p = 0 THEN 1 ELSE x * Pow(x, p - 1)
\* the p-th power of the p-norm
NormPow(v, p) == SumTo([i \in 1..Len(v) |-> Pow(Mag(v[i]), p)], Len(v))
Largest(v) == CHOOSE m \in {Mag(v[i]) : i \in 1..Len(v)} : \A i \in 1..Len(v) : Mag(v[i]) <= m
DotOf(v, w) == SumTo([i \in 1..Len(v) |-> v[i] * w[i]], Len(v))
=============================================================================
