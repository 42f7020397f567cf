------------------------------ MODULE Binning ------------------------------
(* Binning: split points are the values at the equal-frequency ranks, repeated ones once; a value goes to the first *)
(* bin whose split point is not below it, or to the last bin.                                                       *)
EXTENDS Sketch
RECURSIVE BinFrom(_, _, _)
BinFrom(x, sp, b) == IF b > Len(sp) THEN Len(sp) ELSE IF x <= sp[b] THEN b - 1 ELSE BinFrom(x, sp, b + 1)
Bin(x, sp) == BinFrom(x, sp, 1)
Increasing(sp) == \A i \in 1..Len(sp) - 1 : sp[i] < sp[i + 1]
\* for every split point, lying in its bin or an earlier one is the same as being at most the split point
Agree(b, x, sp) == \A i \in 1..Len(sp) : (b <= i - 1) <=> (x <= sp[i])
\* s is close to the rank of quantile i/nb of a bag; one more rank is allowed as i/nb itself is rounded
NearRank(b, s, i, nb, en, ed) ==
    LET n == BagSize(b) lo == BagSum(b, {v \in DOMAIN b : v < s}) + 1 hi == BagSum(b, {v \in DOMAIN b : v <= s}) r == Ideal(n, i, nb)
    IN s \in DOMAIN b /\ (IF r < lo THEN lo - r ELSE IF r > hi THEN r - hi ELSE 0) <= Allowed(n, en, ed) + 1
Covers(b, sp, nb, en, ed) ==
       (\A i \in 1..nb - 1 : \E k \in 1..Len(sp) : NearRank(b, sp[k], i, nb, en, ed))
    /\ (\A k \in 1..Len(sp) : \E i \in 1..nb - 1 : NearRank(b, sp[k], i, nb, en, ed))
=============================================================================
