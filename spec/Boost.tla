------------------------------- MODULE Boost -------------------------------
(* Additive boosting: scores, rounds, losses and the stop decision.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
AbsV(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b, t) == AbsV(a - b) <= t
\* the number of rounds run: all, or up to and including the first whose loss is within tol of the one before
RECURSIVE StopAt(_, _, _, _)
StopAt(losses, i, tol, rounds) ==
    IF i > Len(losses) THEN rounds
    ELSE IF i >= 2 /\ AbsV(losses[i] - losses[i - 1]) < tol THEN i ELSE StopAt(losses, i + 1, tol, rounds)
\* a median of q: at least half of the values on either side
Median(q, m, t) == LET n == Len(q) IN
       2 * Cardinality({i \in 1..n : q[i] <= m + t}) >= n /\ 2 * Cardinality({i \in 1..n : q[i] >= m - t}) >= n - 1
RECURSIVE SumV(_, _)
SumV(q, i) == IF i = 0 THEN 0 ELSE SumV(q, i - 1) + q[i]
=============================================================================
