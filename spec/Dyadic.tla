------------------------------- MODULE Dyadic -------------------------------
(* Exact numbers num / 2^k as pairs <<num, k>> with k >= 0, in lowest terms. *)
EXTENDS Integers, Sequences
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
RECURSIVE Norm(_, _)
Norm(a, k) == IF a = 0 THEN <<0, 0>> ELSE IF k > 0 /\ a % 2 = 0 THEN Norm(a \div 2, k - 1) ELSE <<a, k>>
DAdd(x, y) == IF x[2] >= y[2] THEN Norm(x[1] + y[1] * P2(x[2] - y[2]), x[2]) ELSE Norm(x[1] * P2(y[2] - x[2]) + y[1], y[2])
DNeg(x) == <<0 - x[1], x[2]>>
DSub(x, y) == DAdd(x, DNeg(y))
DMul(x, y) == Norm(x[1] * y[1], x[2] + y[2])
\* division by plus or minus a power of two (a divisor <<s, k>> with s a signed power of two)
RECURSIVE Log2(_)
Log2(a) == IF a <= 1 THEN 0 ELSE 1 + Log2(a \div 2)
Abs(a) == IF a < 0 THEN 0 - a ELSE a
DDiv(x, y) == LET s == IF y[1] < 0 THEN 0 - 1 ELSE 1 IN
              LET up == P2(y[2]) IN Norm(s * x[1] * up, x[2] + Log2(Abs(y[1])))
DLess(x, y) == DSub(x, y)[1] < 0
\* small enough for exact evaluation here and in a double
DSmall(x) == Abs(x[1]) < 1000000 /\ x[2] <= 10
=============================================================================
