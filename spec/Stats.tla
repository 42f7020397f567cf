-------------------------------- MODULE Stats --------------------------------
(* Statistics of a column, a sequence of integers (in quarters of a unit). Out(h, n, d): the value n/d.       *)
EXTENDS Sketch
RECURSIVE SumOf(_, _)
SumOf(h, i) == IF i = 0 THEN 0 ELSE h[i] + SumOf(h, i - 1)
RECURSIVE SquareOf(_, _)
SquareOf(h, i) == IF i = 0 THEN 0 ELSE h[i] * h[i] + SquareOf(h, i - 1)
Total(h) == SumOf(h, Len(h))
\* variance times the square of the count, in squared quarters
Spread(h) == Len(h) * SquareOf(h, Len(h)) - Total(h) * Total(h)
\* the accepted values of a raw column: abnormal ones and those that are no numbers are left out
Other == 100000000
Accepted(raw, abn) == SelectSeq(raw, LAMBDA x : x # Other /\ \A i \in 1..Len(abn) : abn[i] # x)
\* n/d in millionths
RECURSIVE Digits(_, _, _, _)
Digits(whole, rem, d, k) == IF k = 0 THEN whole ELSE Digits(whole * 10 + (rem * 10) \div d, (rem * 10) % d, d, k - 1)
Mu(n, d) == Digits(n \div d, n % d, d, 6)
Mean(h) == Mu(Total(h), 4 * Len(h))
Var(h) == Mu(Spread(h), 16 * Len(h) * Len(h))
=============================================================================
