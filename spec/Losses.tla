------------------------------- MODULE Losses -------------------------------
(* The losses by definition, over exact rationals <<n, d>> (d > 0); logarithms and anything compared with     *)
(* them in millionths. A point is [loss, par, y, z]: for the losses of the difference, z is score - label;    *)
(* for log_cosh the score is label + ln z; for tweedie par = <<a, b>> stands for the power 1 + a/b, and the   *)
(* score is b ln z; for two classes z is the odds, y 0 or 1; for several z the weights of the classes and y the *)
(* number of the class.                                                                                        *)
EXTENDS Integers, Sequences
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
AbsI(x) == IF x < 0 THEN 0 - x ELSE x
Q(n, d) == LET g == Gcd(AbsI(n), d) IN <<n \div g, d \div g>>
QI(n) == <<n, 1>>
QAdd(x, y) == LET g == Gcd(x[2], y[2]) IN Q(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
QNeg(x) == <<0 - x[1], x[2]>>
QSub(x, y) == QAdd(x, QNeg(y))
QMul(x, y) == LET g == Gcd(AbsI(x[1]), y[2]) h == Gcd(AbsI(y[1]), x[2])
              IN Q((x[1] \div g) * (y[1] \div h), (x[2] \div h) * (y[2] \div g))
QInv(x) == IF x[1] < 0 THEN <<0 - x[2], 0 - x[1]>> ELSE <<x[2], x[1]>>
QDiv(x, y) == QMul(x, QInv(y))
QAbs(x) == <<AbsI(x[1]), x[2]>>
QLess(x, y) == QSub(x, y)[1] < 0
RECURSIVE QPow(_, _)
QPow(x, k) == IF k = 0 THEN QI(1) ELSE QMul(x, QPow(x, k - 1))
Root(x) == << CHOOSE i \in 0..400 : i * i = x[1], CHOOSE i \in 1..400 : i * i = x[2] >>
IsSquare(x) == (\E i \in 0..400 : i * i = x[1]) /\ (\E i \in 1..400 : i * i = x[2])
\* millionths
RECURSIVE Digits(_, _, _, _)
Digits(whole, rem, d, k) == IF k = 0 THEN whole ELSE Digits(whole * 10 + (rem * 10) \div d, (rem * 10) % d, d, k - 1)
Mu(x) == Digits(x[1] \div x[2], x[1] % x[2], x[2], 6)
MulM(a, b) == ((a \div 1000) * b) \div 1000 + ((a % 1000) * b) \div 1000000
MulQ(x, m) == IF AbsI(x[1]) <= 40000 /\ x[2] <= 40000 THEN x[1] * (m \div x[2]) + (x[1] * (m % x[2])) \div x[2] ELSE MulM(Mu(x), m)
Series(t, t2) == LET t3 == MulM(t, t2) t5 == MulM(t3, t2) t7 == MulM(t5, t2) IN 2 * (t + t3 \div 3 + t5 \div 5 + t7 \div 7)
RECURSIVE Ln(_)
Ln(x) == IF 3 * x[1] > 4 * x[2] THEN 693147 + Ln(Q(x[1], 2 * x[2]))
         ELSE IF 3 * x[1] < 2 * x[2] THEN Ln(Q(2 * x[1], x[2])) - 693147
         ELSE LET t == Mu(Q(x[1] - x[2], x[1] + x[2])) IN Series(t, MulM(t, t))
NearI(a, b, t) == AbsI(a - b) <= t
Near(m, x, t) == NearI(m, Mu(x), t)
RECURSIVE SumQ(_, _)
SumQ(w, i) == IF i = 0 THEN 0 ELSE w[i] + SumQ(w, i - 1)
Prob(w) == [i \in 1..Len(w) |-> Q(w[i], SumQ(w, Len(w)))]
Chance(odds) == QDiv(odds, QAdd(QI(1), odds))
Tiny == <<1, 1000000>>
\* gradient and hessian (sequences for several classes)
Grad(p) ==
    CASE p.loss = "lse" -> QMul(QI(2), p.z)
      [] p.loss = "lae" -> IF QLess(Tiny, p.z) THEN QI(1) ELSE IF QLess(p.z, QNeg(Tiny)) THEN QI(0 - 1) ELSE QI(0)
      [] p.loss = "huber" -> QDiv(p.z, Root(QAdd(QI(1), QPow(QDiv(p.z, p.par), 2))))
      [] p.loss = "fair" -> QDiv(QMul(p.par, p.z), QAdd(QAbs(p.z), p.par))
      [] p.loss = "log_cosh" -> LET s == QMul(p.z, p.z) IN QDiv(QSub(s, QI(1)), QAdd(s, QI(1)))
      [] p.loss = "tweedie" -> QAdd(QMul(QNeg(p.y), QInv(QPow(p.z, p.par[1]))), QPow(p.z, p.par[2] - p.par[1]))
      [] p.loss = "binary" -> QSub(Chance(p.z), p.y)
Hess(p) ==
    CASE p.loss = "lse" -> QI(2)
      [] p.loss = "lae" -> QI(1)
      [] p.loss = "huber" -> QInv(QPow(Root(QAdd(QI(1), QPow(QDiv(p.z, p.par), 2))), 3))
      [] p.loss = "fair" -> QPow(QDiv(p.par, QAdd(QAbs(p.z), p.par)), 2)
      [] p.loss = "log_cosh" -> QSub(QI(1), QPow(Grad(p), 2))
      [] p.loss = "tweedie" -> QAdd(QMul(QMul(p.y, p.par), QInv(QPow(p.z, p.par[1]))), QMul(QSub(QI(1), p.par), QPow(p.z, p.par[2] - p.par[1])))
      [] p.loss = "binary" -> QMul(Chance(p.z), QSub(QI(1), Chance(p.z)))
GradS(p) == [i \in 1..Len(p.z) |-> IF i = p.y[1] + 1 THEN QSub(Prob(p.z)[i], QI(1)) ELSE Prob(p.z)[i]]
HessS(p) == [i \in 1..Len(p.z) |-> QMul(Prob(p.z)[i], QSub(QI(1), Prob(p.z)[i]))]
\* the loss of one sample, in millionths
Loss(p) ==
    CASE p.loss = "lse" -> Mu(QMul(p.z, p.z))
      [] p.loss = "lae" -> Mu(QAbs(p.z))
      [] p.loss = "huber" -> Mu(QMul(QPow(p.par, 2), QSub(Root(QAdd(QI(1), QPow(QDiv(p.z, p.par), 2))), QI(1))))
      [] p.loss = "fair" -> Mu(QMul(p.par, QAbs(p.z))) - MulQ(QPow(p.par, 2), Ln(QAdd(QI(1), QDiv(QAbs(p.z), p.par))))
      [] p.loss = "log_cosh" -> Ln(QDiv(QAdd(QI(1), QMul(p.z, p.z)), QMul(QI(2), p.z)))
      [] p.loss = "tweedie" -> Mu(QMul(QMul(p.y, QInv(p.par)), QInv(QPow(p.z, p.par[1])))) + Mu(QDiv(QPow(p.z, p.par[2] - p.par[1]), QSub(QI(1), p.par)))
      [] p.loss = "binary" -> 0 - Ln(IF p.y[1] = 1 THEN Chance(p.z) ELSE QSub(QI(1), Chance(p.z)))
      [] p.loss = "softmax" -> 0 - Ln(Prob(p.z)[p.y[1] + 1])
\* change of score between two points with the same label, in millionths
Move(p, q) ==
    CASE p.loss \in {"lse", "lae", "huber", "fair"} -> Mu(QSub(q.z, p.z))
      [] p.loss \in {"log_cosh", "binary"} -> Ln(QDiv(q.z, p.z))
      [] p.loss = "tweedie" -> p.par[2] * Ln(QDiv(q.z, p.z))
\* link functions at the score ln z (softsign and hard_sigmoid at z itself), in millionths
Link(fn, z) ==
    CASE fn = "sigmoid" -> Mu(Chance(z))
      [] fn = "tanh" -> Mu(LET s == QMul(z, z) IN QDiv(QSub(s, QI(1)), QAdd(s, QI(1))))
      [] fn = "log_logistic" -> Ln(Chance(z))
      [] fn = "softplus" -> Ln(QAdd(QI(1), z))
      [] fn = "softsign" -> Mu(QDiv(z, QAdd(QI(1), QAbs(z))))
      [] fn = "hard_sigmoid" -> Mu(LET v == QAdd(QMul(<<1, 5>>, z), <<1, 2>>) IN IF v[1] < 0 THEN QI(0) ELSE IF QLess(QI(1), v) THEN QI(1) ELSE v)
=============================================================================
