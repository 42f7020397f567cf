------------------------------- MODULE TreeSem -------------------------------
(* What one tree of secure boosting is. A data set d holds, for every party (1: guest, 2..: hosts), the raw   *)
(* integer feature values d.X[p][k][f] of the samples 1..d.n and the split points d.SP[p][f] in increasing    *)
(* order; d.valid[p][f] = 1 marks the features drawn for this tree; d.g, d.h are integer gradients and        *)
(* hessians, d.lamnum/d.lamden the regulariser, d.minum/d.miden the minimum impurity. All comparisons of      *)
(* gains are exact comparisons of rationals.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE x \in S : TRUE IN f[k] + SumOver(f, S \ {k})
G(d, S) == SumOver(d.g, S)
H(d, S) == SumOver(d.h, S)
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* a value goes left of a threshold when it is not above it; a value not stored is a zero
GoesLeft(d, p, f, t, S) == {k \in S : d.X[p][k][f] <= t}
Candidates(d) == UNION {UNION {{<<p, f, b>> : b \in 1..Len(d.SP[p][f])} :
                                f \in {x \in 1..Len(d.SP[p]) : d.valid[p][x] = 1}} : p \in 1..Len(d.X)}
LeftOf(d, S, c) == GoesLeft(d, c[1], c[2], d.SP[c[1]][c[2]][c[3]], S)
Admissible(d, S, c) ==
    /\ Cardinality(S) >= d.minsample
    /\ Cardinality(LeftOf(d, S, c)) >= d.minleaf
    /\ Cardinality(S \ LeftOf(d, S, c)) >= d.minleaf
\* the gain G_L^2/(H_L+lambda) + G_R^2/(H_R+lambda) - G^2/(H+lambda); numerator and denominator of its first two
\* terms, everything multiplied by lamden
HL(d, S) == d.lamden * H(d, S) + d.lamnum
Split(d, S, L) ==
    LET R == S \ L gl == G(d, L) gr == G(d, R) hl == HL(d, L) hr == HL(d, R)
    IN <<gl * gl * hr + gr * gr * hl, hl * hr>>
\* a/b > c/e for a, c >= 0 and b, e > 0: by their whole parts, then by the reciprocals of what remains
RECURSIVE RatGT(_, _, _, _)
RatGT(a, b, c, e) == IF a \div b # c \div e THEN a \div b > c \div e
                     ELSE IF a % b = 0 THEN FALSE ELSE IF c % e = 0 THEN TRUE ELSE RatGT(e, c % e, b, a % b)
GainGT(x, y) == RatGT(x[1], x[2], y[1], y[2])            \* between splits of the same node
Exceeds(d, S, x) ==                                      \* gain > minimum impurity
    LET g == G(d, S) h == HL(d, S)
        v == (x[1] * h - g * g * x[2]) * d.lamden
    IN v > 0 /\ RatGT(v, x[2] * h, d.minum, d.miden)
Good(d, S) == {c \in Candidates(d) : Admissible(d, S, c) /\ Exceeds(d, S, Split(d, S, LeftOf(d, S, c)))}
\* the splits of greatest gain: for a set of candidates, those no other beats
Best(d, S, C) == LET q == [c \in C |-> Split(d, S, LeftOf(d, S, c))]
                 IN {c \in C : \A e \in C : ~GainGT(q[e], q[c])}
\* a tie between guest and hosts goes to the guest
Allowed(d, S) == LET b == Best(d, S, Good(d, S)) g == {c \in b : c[1] = 1} IN IF g # {} THEN g ELSE b
\* |w - (-G/(H+lambda))| below 2 millionths, w in millionths
WeightOK(d, S, w) == Abs(w * HL(d, S) + 1000000 * d.lamden * G(d, S)) <= 2 * HL(d, S)
=============================================================================
