----------------------------- MODULE LossesTrace -----------------------------
(* What the loss classes and link functions returned, in millionths (2*10^9 stands for anything beyond).      *)
EXTENDS Losses, TraceKit, FiniteSets
TInitSt(t) == [x |-> 0]
RECURSIVE SumLoss(_, _)
SumLoss(ps, i) == IF i = 0 THEN 0 ELSE Loss(ps[i]) + SumLoss(ps, i - 1)
RECURSIVE SumI(_, _)
SumI(q, i) == IF i = 0 THEN 0 ELSE q[i] + SumI(q, i - 1)
Median(q, m) == LET n == Len(q) IN
       2 * Cardinality({i \in 1..n : q[i] <= m + 1}) >= n /\ 2 * Cardinality({i \in 1..n : q[i] >= m - 1}) >= n - 1
T == 5
\* 10^-n in millionths
Small(n) == IF n >= 7 THEN 0 ELSE CASE n = 3 -> 1000 [] n = 4 -> 100 [] n = 5 -> 10 [] OTHER -> 1
TFails(s, e) ==
    CASE e.op = "point" ->
         IF e.out # "ok" THEN {"gradients and hessians are given for every label and score"}
         ELSE IF e.p.loss = "softmax" THEN
              Bad("the gradient is the one defined", Len(e.g) = Len(e.p.z) /\ \A i \in 1..Len(e.p.z) : Near(e.g[i], GradS(e.p)[i], T))
         \cup Bad("the hessian is the one defined", Len(e.h) = Len(e.p.z) /\ \A i \in 1..Len(e.p.z) : Near(e.h[i], HessS(e.p)[i], T))
         \cup Bad("arrays keep their shape, and inputs their values", e.shape = 1)
         ELSE Bad("the gradient is the one defined", Near(e.g[1], Grad(e.p), T))
         \cup Bad("the hessian is the one defined", Near(e.h[1], Hess(e.p), T))
         \cup Bad("arrays keep their shape, and inputs their values", e.shape = 1)
      [] e.op = "mean" ->
         IF e.out # "ok" THEN {"a loss is given for every table"}
         ELSE Bad("the loss is the mean over the samples in both tables", AbsI(e.v) < 2000000000 \div Len(e.ps) /\ NearI(e.v * Len(e.ps), SumLoss(e.ps, Len(e.ps)), 80 * Len(e.ps)))
      [] e.op = "start" ->
         IF e.out # "ok" THEN {"a start is given for every table"}
         ELSE Bad("every sample starts at the initial score", e.kept = 1 /\ \A i \in 1..Len(e.rows) : e.rows[i] = e.init)
         \cup Bad("the initial score is the one documented",
                  CASE e.kind = "zero" -> e.init = [i \in 1..e.dim |-> 0]
                    [] e.kind = "median" -> Len(e.init) = 1 /\ Median(e.y, e.init[1])
                    [] e.kind = "mean" -> Len(e.init) = 1 /\ AbsI(e.init[1]) < 25000000 /\ NearI(e.init[1] * Len(e.y), SumI(e.y, Len(e.y)), 3 * Len(e.y)))
      [] e.op = "link" ->
         IF e.out # "ok" THEN {"link functions take every score"}
         ELSE Bad("link functions return what they name", NearI(e.v, Link(e.fn, e.z), 15))
      [] e.op = "probs" ->
         IF e.out # "ok" THEN {"link functions take every score"}
         ELSE Bad("probabilities are proportional to the exponentials", Len(e.v) = Len(e.w) /\ \A i \in 1..Len(e.w) : Near(e.v[i], Prob(e.w)[i], T))
         \cup Bad("probabilities add up to one", (\A i \in 1..Len(e.v) : AbsI(e.v[i]) < 100000000) /\ NearI(SumI(e.v, Len(e.v)), 1000000, Len(e.v)))
      [] e.op = "far" ->
         IF e.out # "ok" THEN {"link functions take every score"}
         ELSE CASE e.what = "sigmoid" -> Bad("far scores give certain probabilities", e.v = << IF e.n > 0 THEN 1000000 ELSE 0 >>)
                [] e.what = "softmax" -> Bad("far scores give certain probabilities", e.v = [i \in 1..Len(e.v) |-> IF i = e.n THEN 1000000 ELSE 0])
                [] e.what = "log_logistic" -> Bad("link functions return what they name", NearI(e.v[1], IF e.n > 0 THEN 0 ELSE e.n * 1000000, 2))
                [] e.what = "log_cosh" -> Bad("the loss is the mean over the samples in both tables", NearI(e.v[1], AbsI(e.n) * 1000000 - 693147, 30))
                                  \cup Bad("the gradient is the one defined", e.v[2] = IF e.n > 0 THEN 1000000 ELSE 0 - 1000000)
                                  \cup Bad("the hessian is the one defined", e.v[3] = 0)
                [] e.what = "certain" -> Bad("a sure and right prediction costs nothing, a sure and wrong one a lot", IF e.n = 1 THEN e.v[1] = 0 ELSE e.v[1] >= 10000000)
                [] e.what = "unlikely" -> Bad("the loss is the mean over the samples in both tables", NearI(e.v[1], (e.n * 23025851) \div 10, 20))
                                  \cup Bad("the gradient is the one defined", NearI(e.v[2], Small(e.n) - 1000000, 2))
                                  \cup Bad("the hessian is the one defined", NearI(e.v[3], 1000000 - Small(e.n), 10))
                [] e.what = "small" -> Bad("the gradient is the one defined", NearI(e.v[2], 1000000, 10))
                                  \cup Bad("the hessian is the one defined", NearI(e.v[3], 1000000 - Small(e.n), 10))
                [] e.what = "square" -> Bad("the loss is the mean over the samples in both tables", NearI(e.v[1], 1000000, 2))
                                  \cup Bad("the gradient is the one defined", NearI(e.v[2], 2000000, 2))
                                  \cup Bad("the hessian is the one defined", e.v[3] = 2000000)
                [] e.what = "fallback" -> Bad("without a parameter the loss is nearly flat", NearI(e.v[1], 0, 2) /\ (e.n # 0 => NearI(e.v[2], 0, 2)) /\ (e.n = 0 => e.v = <<0, 1000000>>))
TStep(s, e) == s
TFinal(s) == {}
=============================================================================
