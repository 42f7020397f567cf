------------------------------- MODULE Sketch -------------------------------
(* Quantile sketches. An input is a sequence of integers; the error is the fraction en/ed. The promise is stated   *)
(* on the input alone, whatever the sketch does inside.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
RECURSIVE CountIf(_, _, _, _)
\* how many of h[1..i] are below x (k = 0) or at most x (k = 1)
CountIf(h, i, x, k) == IF i = 0 THEN 0 ELSE (IF h[i] < x \/ (k = 1 /\ h[i] = x) THEN 1 ELSE 0) + CountIf(h, i - 1, x, k)
Below(h, x) == CountIf(h, Len(h), x, 0)
UpTo(h, x) == CountIf(h, Len(h), x, 1)
CeilDiv(a, b) == (a + b - 1) \div b
Occurs(h, x) == \E i \in 1..Len(h) : h[i] = x
\* distance of the ranks x occupies from the ideal rank of quantile qn/qd
Ideal(n, qn, qd) == LET r == CeilDiv(qn * n, qd) IN IF r < 1 THEN 1 ELSE r
Off(h, x, r) == LET lo == Below(h, x) + 1 hi == UpTo(h, x) IN IF r < lo THEN lo - r ELSE IF r > hi THEN r - hi ELSE 0
Allowed(n, en, ed) == CeilDiv(2 * en * n, ed)
Good(h, x, qn, qd, en, ed) == Occurs(h, x) /\ Off(h, x, Ideal(Len(h), qn, qd)) <= Allowed(Len(h), en, ed)
SMin(h) == CHOOSE x \in {h[i] : i \in 1..Len(h)} : \A i \in 1..Len(h) : x <= h[i]
SMax(h) == CHOOSE x \in {h[i] : i \in 1..Len(h)} : \A i \in 1..Len(h) : x >= h[i]
\* what may be said about the list of samples <<value, g, delta>> kept inside
RECURSIVE SumG(_, _)
SumG(s, i) == IF i = 0 THEN 0 ELSE s[i][2] + SumG(s, i - 1)
Sorted(s) == \A i \in 1..Len(s) - 1 : s[i][1] <= s[i + 1][1]
FromInput(h, s) == \A i \in 1..Len(s) : Occurs(h, s[i][1])
Ends(h, s) == Len(h) > 0 => Len(s) > 0 /\ s[1][1] = SMin(h) /\ s[Len(s)][1] = SMax(h)
\* the same promise for a bag (a function from values to how often they were inserted)
BagSum(b, S) == FoldSet(LAMBDA v, a : a + b[v], 0, S)
BagAdd(b, x, c) == [v \in DOMAIN b \cup {x} |-> (IF v \in DOMAIN b THEN b[v] ELSE 0) + (IF v = x THEN c ELSE 0)]
BagSize(b) == BagSum(b, DOMAIN b)
BagGood(b, x, qn, qd, en, ed) ==
    LET n == BagSize(b) lo == BagSum(b, {v \in DOMAIN b : v < x}) + 1 hi == BagSum(b, {v \in DOMAIN b : v <= x}) r == Ideal(n, qn, qd)
    IN x \in DOMAIN b /\ (IF r < lo THEN lo - r ELSE IF r > hi THEN r - hi ELSE 0) <= Allowed(n, en, ed)
=============================================================================
