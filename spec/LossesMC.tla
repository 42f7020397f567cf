------------------------------ MODULE LossesMC ------------------------------
(* The definitions hang together: the gradient is the slope of the loss and the hessian that of the gradient  *)
(* (by convexity, between neighbouring points of a lattice), both sides of the label mirror each other, and   *)
(* probabilities add up to one. FAULT: "half" (a squared error gradient without the factor 2), "third" (an    *)
(* exponent 1 in the Huber hessian), "odds" (the hessian p of two classes), "flat" (the old Tweedie formulas), *)
(* "all" (one subtracted at every class), "fairsq" (a fair hessian without the square).                         *)
EXTENDS Losses, TLC, Json, FiniteSets
CONSTANTS FAULT, GENERATE, BIG
VARIABLES pt, nxt, done
vars == <<pt, nxt, done>>
Up == IF BIG THEN 12 ELSE 6
Fractions == {Q(n, d) : n \in 1..Up, d \in 1..Up}
Diffs == {QI(0)} \cup Fractions \cup {QNeg(x) : x \in Fractions}
Ratios == {QI(0)} \cup UNION {{Q(m * m - n * n, 2 * m * n), Q(n * n - m * m, 2 * m * n)} : m \in 1..Up, n \in 1..Up}
Pars == {<<1, 2>>, <<1, 1>>, <<2, 1>>}
Ys == {<<0 - 3, 2>>, <<0, 1>>, <<5, 4>>}
Small == {<<1, 2000000>>, <<0 - 1, 2000000>>, <<1, 100000>>, <<0 - 1, 100000>>}
Single == [loss : {"lse"}, par : {<<1, 1>>}, y : Ys, z : Diffs] \cup [loss : {"lae"}, par : {<<1, 1>>}, y : Ys, z : Diffs \cup Small]
          \cup [loss : {"fair"}, par : Pars, y : Ys, z : Diffs]
          \cup {[loss |-> "huber", par |-> c, y |-> y, z |-> QMul(c, u)] : c \in Pars, y \in Ys, u \in Ratios}
          \cup [loss : {"log_cosh"}, par : {<<1, 1>>}, y : Ys, z : Fractions]
          \cup [loss : {"tweedie"}, par : {<<1, 2>>, <<1, 4>>, <<3, 4>>, <<1, 3>>}, y : {<<0, 1>>, <<1, 1>>, <<5, 4>>}, z : {Q(n, d) : n \in 1..6, d \in 1..4}]
          \cup [loss : {"binary"}, par : {<<1, 1>>}, y : {<<0, 1>>, <<1, 1>>}, z : Fractions \cup {QI(50), <<1, 50>>}]
Several == UNION {[loss : {"softmax"}, par : {<<1, 1>>}, y : {<<c, 1>> : c \in 0..(k - 1)}, z : [1..k -> 1..(IF k = 4 THEN 3 ELSE 4)]] : k \in 2..4}
Init == pt \in Single \cup Several /\ nxt = pt /\ done = FALSE
Close(p, q) == p.loss # "softmax" /\ LET m == Move(p, q) IN m > 0 /\ m <= 1600000
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED pt
        /\ IF GENERATE \/ pt.loss = "softmax" THEN nxt' = pt
           ELSE \E q \in {x \in Single : x.loss = pt.loss /\ x.par = pt.par /\ x.y = pt.y} : Close(pt, q) /\ nxt' = q
Spec == Init /\ [][Next]_vars
G(p) == IF FAULT = "half" /\ p.loss = "lse" THEN p.z
        ELSE IF FAULT = "flat" /\ p.loss = "tweedie" THEN QAdd(QMul(QNeg(p.y), p.z), p.z) ELSE Grad(p)
H(p) == IF FAULT = "third" /\ p.loss = "huber" THEN QInv(Root(QAdd(QI(1), QPow(QDiv(p.z, p.par), 2))))
        ELSE IF FAULT = "odds" /\ p.loss = "binary" THEN Chance(p.z)
        ELSE IF FAULT = "fairsq" /\ p.loss = "fair" THEN QDiv(p.par, QAdd(QAbs(p.z), p.par)) ELSE Hess(p)
GS(p) == IF FAULT = "all" THEN [i \in 1..Len(p.z) |-> QSub(Prob(p.z)[i], QI(1))] ELSE GradS(p)
Pair == done /\ pt.loss # "softmax" /\ ~GENERATE
Tol == 60
GradientIsSlope == Pair => LET m == Move(pt, nxt) d == Loss(nxt) - Loss(pt)
                           IN d >= MulQ(G(pt), m) - Tol /\ d <= MulQ(G(nxt), m) + Tol
\* the hessian falls away from the label for these (for two classes: away from even odds)
Side == (pt.loss \in {"huber", "fair"} /\ pt.z[1] >= 0) \/ (pt.loss \in {"log_cosh", "binary"} /\ pt.z[1] >= pt.z[2])
HessianIsSlope == Pair =>
    LET m == Move(pt, nxt) d == Mu(G(nxt)) - Mu(G(pt))
    IN (Side => d <= MulQ(H(pt), m) + Tol /\ d >= MulQ(H(nxt), m) - Tol)
       /\ (pt.loss = "lse" => NearI(d, MulQ(H(pt), m), Tol))
       /\ (pt.loss = "tweedie" => 2 * d <= MulQ(H(pt), m) + MulQ(H(nxt), m) + Tol)
\* both sides of the label (of even odds) mirror each other
Mirror == [pt EXCEPT !.z = IF pt.loss \in {"log_cosh", "binary"} THEN QInv(pt.z) ELSE QNeg(pt.z), !.y = IF pt.loss = "binary" THEN QSub(QI(1), pt.y) ELSE pt.y]
Symmetric == (Pair /\ pt.loss # "tweedie") => G(Mirror) = QNeg(G(pt)) /\ H(Mirror) = H(pt) /\ NearI(Loss(Mirror), Loss(pt), 20)
Least == Pair => ((pt.loss \in {"lse", "lae", "huber", "fair"} /\ pt.z = QI(0)) => G(pt) = QI(0) /\ Loss(pt) = 0)
Bounded == Pair => /\ (pt.loss \in {"huber", "fair"} => QLess(QAbs(G(pt)), pt.par))
                   /\ (pt.loss \in {"lae", "log_cosh", "binary"} => ~QLess(QI(1), QAbs(G(pt))))
                   /\ H(pt)[1] > 0
RECURSIVE Total(_, _)
Total(s, i) == IF i = 0 THEN QI(0) ELSE QAdd(s[i], Total(s, i - 1))
AddsUp == (done /\ pt.loss = "softmax") => Total(Prob(pt.z), Len(pt.z)) = QI(1) /\ Total(GS(pt), Len(pt.z)) = QI(0)
TwoAreTwo == (done /\ pt.loss = "softmax" /\ Len(pt.z) = 2) =>
    LET b == [loss |-> "binary", par |-> <<1, 1>>, y |-> pt.y, z |-> Q(pt.z[2], pt.z[1])]
    IN GS(pt)[2] = G(b) /\ HessS(pt)[2] = H(b) /\ NearI(Loss(pt), Loss(b), 20)
Emit == (GENERATE /\ done) => PrintT("BEHAVIOUR " \o ToJson(pt))
=============================================================================
