------------------------------- MODULE StatsMC -------------------------------
(* One pass over parts of a column, each keeping count, sum, squared deviation (times the count) and extremes; *)
(* parts merged in any order. FAULT: "max" forgets a merged maximum, "mean" averages the means, "cross" leaves *)
(* out the distance between the means, "first" takes the first value for an extreme whatever comes later,       *)
(* "abn" counts abnormal values (2).                                                                             *)
EXTENDS Stats, TLC
CONSTANTS VALS, SIZE, PARTS, FAULT
VARIABLES part, data
vars == <<part, data>>
None == [c |-> 0, s |-> 0, v |-> 0, hi |-> 0 - 1000, lo |-> 1000]
Init == part = [p \in 1..PARTS |-> None] /\ data = [p \in 1..PARTS |-> <<>>]
Big(a, b) == IF a > b THEN a ELSE b
Small(a, b) == IF a < b THEN a ELSE b
\* v is count * (sum of squared deviations) = count^2 * variance: an integer
Add(t, x) == [c |-> t.c + 1, s |-> t.s + x, v |-> IF t.c = 0 THEN 0 ELSE ((t.c + 1) * t.v + (t.c * x - t.s) * (t.c * x - t.s)) \div t.c,
              hi |-> IF FAULT = "first" /\ t.c > 0 THEN t.hi ELSE Big(t.hi, x), lo |-> Small(t.lo, x)]
Both(a, b) == IF a.c = 0 THEN b ELSE IF b.c = 0 THEN a ELSE
    LET n == a.c + b.c d == a.s * b.c - b.s * a.c      \* difference of the means times both counts
    IN [c |-> n, s |-> IF FAULT = "mean" THEN n * ((a.s * b.c + b.s * a.c) \div (2 * a.c * b.c)) ELSE a.s + b.s,
        v |-> (n * a.v * b.c + n * b.v * a.c + (IF FAULT = "cross" THEN 0 ELSE d * d)) \div (a.c * b.c),
        hi |-> IF FAULT = "max" THEN a.hi ELSE Big(a.hi, b.hi), lo |-> Small(a.lo, b.lo)]
Value(p, x) == /\ Len(data[p]) < SIZE /\ data' = [data EXCEPT ![p] = Append(@, x)]
               /\ part' = IF x = 2 /\ FAULT # "abn" THEN part ELSE [part EXCEPT ![p] = Add(@, x)]
Join(p, q) == /\ p # q /\ data[q] # <<>> /\ Len(data[p]) + Len(data[q]) <= 2 * SIZE
              /\ data' = [data EXCEPT ![p] = @ \o data[q], ![q] = <<>>]
              /\ part' = [part EXCEPT ![p] = Both(part[p], part[q]), ![q] = None]
Next == \E p \in 1..PARTS : (\E x \in VALS : Value(p, x)) \/ (\E q \in 1..PARTS : Join(p, q))
Spec == Init /\ [][Next]_vars
H(p) == Accepted(data[p], <<2>>)
Counted == \A p \in 1..PARTS : part[p].c = Len(H(p)) /\ part[p].s = Total(H(p))
Extremes == \A p \in 1..PARTS : H(p) # <<>> => part[p].hi = SMax(H(p)) /\ part[p].lo = SMin(H(p))
Variance == \A p \in 1..PARTS : part[p].v = Spread(H(p))
\* and the spread is what it means: the sum of squared differences to the mean
RECURSIVE Dev(_, _)
Dev(h, i) == IF i = 0 THEN 0 ELSE (Len(h) * h[i] - Total(h)) * (Len(h) * h[i] - Total(h)) + Dev(h, i - 1)
Means == \A p \in 1..PARTS : Len(H(p)) * Spread(H(p)) = Dev(H(p), Len(H(p)))
=============================================================================
