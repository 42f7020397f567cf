----------------------------- MODULE BoostTrace -----------------------------
(* A recorded training and the predictions after it. Numbers are in millionths.                                      *)
EXTENDS Boost, TraceKit
TInitSt(t) == [p |-> t.p, n |-> t.p.n, dim |-> t.p.dim, init |-> <<>>, sum |-> <<>>, F0 |-> <<>>, k |-> 0, nw |-> 0, losses |-> <<>>, fin |-> <<>>, psum |-> <<>>, pk |-> 0, ns |-> 0]
TOL(s) == 3 + s.k
\* scores according to the specification: init + rate * sum; the rate is lrn / lrd
Score(s, sm, i, d) == s.init[i][d] + (s.p.lrn * sm[i][d]) \div s.p.lrd
AllNear(f, g, t) == Len(f) = Len(g) /\ \A i \in 1..Len(f) : Len(f[i]) = Len(g[i]) /\ \A d \in 1..Len(f[i]) : Near(f[i][d], g[i][d], t)
Expected(s) == [i \in 1..s.n |-> [d \in 1..s.dim |-> Score(s, s.sum, i, d)]]
Dim(s) == (s.nw % s.dim) + 1
Row1(q) == [i \in 1..Len(q) |-> <<q[i]>>]
Fl(s, e) ==
    CASE e.op = "init" ->
            Bad("the initial score is zero for classification", s.p.start = "zero" => \A i \in 1..Len(e.f) : e.f[i] = [d \in 1..s.dim |-> 0])
       \cup Bad("the initial score is the mean label", s.p.start = "mean" => \A i \in 1..Len(e.f) : Near(e.f[i][1], SumV(s.p.y, s.n) \div s.n, 2))
       \cup Bad("the initial score is the median label", s.p.start = "median" => \A i \in 1..Len(e.f) : Median(s.p.y, e.f[i][1], 1))
       \cup Bad("every sample has one score per output", Len(e.f) = s.n /\ \A i \in 1..Len(e.f) : Len(e.f[i]) = s.dim)
      [] e.op = "tree" ->
            Bad("no more trees are grown than configured", s.k < s.dim * s.p.rounds)
       \cup Bad("a tree is grown on the scores before its round", AllNear(e.at, IF Dim(s) = 1 THEN Expected(s) ELSE s.F0, TOL(s)))
       \cup Bad("gradients belong to the scores before the round", AllNear(Row1(e.g), Row1(e.eg), 3 + 2 * TOL(s)))
       \cup Bad("hessians belong to the scores before the round", AllNear(Row1(e.h), Row1(e.eh), 3 + 2 * TOL(s)))
      [] e.op = "grown" -> Bad("a tree gives every sample a weight", Len(e.w) = s.n)
      [] e.op = "after" -> Bad("the score is the initial score plus the rate times the sum of the weights", AllNear(e.f, Expected(s), TOL(s)))
      [] e.op = "losses" ->
            Bad("one loss is recorded per round", s.dim * Len(e.l) = s.k)
       \cup Bad("the loss recorded is that of the scores after the round", Len(e.l) = Len(e.want) => \A i \in 1..Len(e.l) : Near(e.l[i], e.want[i], 5 + 4 * TOL(s) + AbsV(e.l[i]) \div 20000))
       \cup Bad("the configured number of rounds is run unless the loss converged",
                Len(e.l) = IF s.p.stop = 1 THEN StopAt(e.l, 1, s.p.tol, s.p.rounds) ELSE s.p.rounds)
      [] e.op = "importances" ->    \* of the booster, against those of its trees
            Bad("the importances of the booster add up those of its trees",
                LET keys(q) == {<<q[i][1], q[i][2]>> : i \in 1..Len(q)}
                    val(q, k) == SumV([i \in 1..Len(q) |-> IF <<q[i][1], q[i][2]>> = k THEN q[i][3] ELSE 0], Len(q))
                    all == UNION {keys(e.trees[j]) : j \in 1..Len(e.trees)}
                IN keys(e.total) = all /\ Len(e.total) = Cardinality(all)
                   /\ \A k \in all : LET w == SumV([j \in 1..Len(e.trees) |-> val(e.trees[j], k)], Len(e.trees)) IN Near(val(e.total, k), w, Len(e.trees) + w \div 100000))
      [] e.op = "end" ->
            Bad("training ends normally", e.out = "ok")
       \cup Bad("guest and hosts keep one tree per round and output", e.out = "ok" => \A i \in 1..Len(e.trees) : e.trees[i] = s.k)
      [] e.op = "rescore" ->        \* prediction for samples (e.idx: their number in the training data, 0 for others); e.ws: weights per tree
            IF e.out # "ok" THEN {"prediction ends normally"} ELSE
            Bad("prediction asks every stored tree once", Len(e.ws) = s.k)
       \cup Bad("prediction recomputes the training scores", \A i \in 1..Len(e.f) : e.idx[i] > 0 => Len(e.f[i]) = s.dim /\ \A d \in 1..s.dim : Near(e.f[i][d], s.fin[e.idx[i]][d], 2 * TOL(s)))
       \cup Bad("prediction adds up the stored trees' weights", Len(e.ws) = s.k => \A i \in 1..Len(e.f) : Len(e.f[i]) = s.dim /\ \A d \in 1..s.dim :
                    Near(e.f[i][d], s.init[1][d] + (s.p.lrn * SumV([j \in 1..(s.k \div s.dim) |-> e.ws[(j - 1) * s.dim + d][i]], s.k \div s.dim)) \div s.p.lrd, TOL(s)))
St(s, e) ==
    CASE e.op = "init" -> [s EXCEPT !.init = e.f, !.sum = [i \in 1..s.n |-> [d \in 1..s.dim |-> 0]], !.fin = e.f]
      [] e.op = "tree" -> IF Dim(s) = 1 THEN [s EXCEPT !.F0 = Expected(s)] ELSE s
      [] e.op = "grown" -> [s EXCEPT !.sum = [i \in 1..s.n |-> [s.sum[i] EXCEPT ![Dim(s)] = @ + e.w[i]]], !.k = @ + 1, !.nw = @ + 1]
      [] e.op = "after" -> [s EXCEPT !.fin = e.f]
      [] OTHER -> s
Fin(s) == {}
=============================================================================
