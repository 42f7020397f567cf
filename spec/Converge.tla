------------------------------ MODULE Converge ------------------------------
(* Convergence criteria over the sequence of values fed so far. Losses and tolerances are integers in one unit;   *)
(* weight vectors are sequences of integers, their tolerance the fraction num/den.                                *)
EXTENDS Integers, Sequences
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Diff(h, eps) == Len(h) > 1 /\ Abs(h[Len(h) - 1] - h[Len(h)]) < eps
AbsC(h, eps) == h[Len(h)] <= eps
RECURSIVE Sq(_, _)
Sq(v, i) == IF i = 0 THEN 0 ELSE v[i] * v[i] + Sq(v, i - 1)
Norm2(v) == Sq(v, Len(v))
Minus(a, b) == [i \in 1..Len(a) |-> a[i] - b[i]]
Left(h, den) == Norm2(Minus(h[Len(h) - 1], h[Len(h)])) * den * den
Right(h, num) == LET w == Norm2(h[Len(h)]) IN num * num * (IF w < 1 THEN 1 ELSE w)
Weight(h, num, den) == Len(h) > 1 /\ Left(h, den) < Right(h, num)
Square(x) == \E r \in 0..x : r * r = x
\* norms that are not whole numbers are rounded: an exact tie is then not decided here
Tie(h, num, den) == Len(h) > 1 /\ Left(h, den) = Right(h, num) /\
                    ~(Square(Norm2(Minus(h[Len(h) - 1], h[Len(h)]))) /\ Square(Norm2(h[Len(h)])))
=============================================================================
