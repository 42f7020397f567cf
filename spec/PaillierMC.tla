----------------------------- MODULE PaillierMC -----------------------------
(* A machine whose registers hold ciphertexts [c, e] (group element and exponent) next to the exact number they *)
(* should stand for (v, scaled by B^E). Operations align exponents as the implementation does. The result of    *)
(* every program decrypts to its plain value while that is representable. FAULT: "noalign" adds without         *)
(* aligning, "unsigned" raises to one more than the multiplier and ignores its sign, "mod"                     *)
(* reduces modulo n, "nogap" uses the range n/2.                                                               *)
EXTENDS Paillier, TLC, FiniteSets
CONSTANTS P, Q, FAULT, STEPS, MAXV, E
VARIABLES regs, steps
vars == <<regs, steps>>
N == P * Q
N2 == N * N
M == IF FAULT = "nogap" THEN N \div 2 + 2 ELSE N \div 3 - 1
B == 2
RECURSIVE Exp(_)
Exp(k) == IF k = 0 THEN 1 ELSE B * Exp(k - 1)
Plain == {0 - MAXV, 0 - 1, 0, 1, MAXV}
Rs == {1, 2, 3}
Scale(v, e) == v * Exp(E - e)
Init == regs = <<>> /\ steps = 0
Encrypt == \E v \in Plain, e \in 0..E, r \in Rs :
    /\ InRange(M, v) /\ Gcd(r, N) = 1
    /\ regs' = Append(regs, [c |-> Enc(N, v % N, r), e |-> e, v |-> Scale(v, e)])
Up(x, e) == [c |-> PowMod(x.c, Exp(e - x.e), N2), e |-> e]
Mx(a, b) == IF a > b THEN a ELSE b
AddC == \E i, j \in 1..Len(regs) :
    LET x == regs[i] y == regs[j] e == Mx(x.e, y.e)
        xx == IF FAULT = "noalign" THEN x ELSE Up(x, e) yy == IF FAULT = "noalign" THEN y ELSE Up(y, e) IN
    regs' = Append(regs, [c |-> (xx.c * yy.c) % (IF FAULT = "mod" THEN N ELSE N2), e |-> e, v |-> x.v + y.v])
AddP == \E i \in 1..Len(regs), v \in Plain, e \in 0..E :
    LET x == regs[i] t == Mx(x.e, e) w == v * Exp(t - e) IN
    /\ InRange(M, w)
    /\ regs' = Append(regs, [c |-> (Up(x, t).c * Enc(N, w % N, 1)) % N2, e |-> t, v |-> x.v + Scale(v, e)])
MulP == \E i \in 1..Len(regs), v \in Plain :
    LET x == regs[i] k == v % N IN
    /\ InRange(M, v)
    /\ regs' = Append(regs, [c |-> IF k >= N - M /\ FAULT # "unsigned" THEN PowMod(Inv(x.c, N2), N - k, N2)
                                   ELSE PowMod(x.c, IF FAULT = "unsigned" THEN (k + 1) % N ELSE k, N2), e |-> x.e, v |-> x.v * v])
Next == steps < STEPS /\ steps' = steps + 1 /\ (Encrypt \/ AddC \/ AddP \/ MulP)
Spec == Init /\ [][Next]_vars
\* exact when the value at the register's exponent is an integer in the range
Faithful == \A i \in 1..Len(regs) : LET x == regs[i] w == x.v \div Exp(E - x.e) IN
    (x.v % Exp(E - x.e) = 0 /\ InRange(M, w)) => Signed(N, M, Dec(N, P, Q, x.c)) = w
Noticed == \A i \in 1..Len(regs) : LET x == regs[i] w == x.v \div Exp(E - x.e) IN
    (x.v % Exp(E - x.e) = 0 /\ ~InRange(M, w) /\ (w <= 2 * M /\ w >= 0 - 2 * M)) => Signed(N, M, Dec(N, P, Q, x.c)) = Over
Group == \A i \in 1..Len(regs) : Unit(regs[i].c, N)
\* the algebra itself, for all residues and all units
Algebra == steps = 0 => \A m \in 0..N - 1 : \A r \in {x \in 1..N - 1 : Gcd(x, N) = 1} :
    LET c == Enc(N, m, r) IN
    /\ Unit(c, N) /\ Dec(N, P, Q, c) = m
    /\ Dec(N, P, Q, Inv(c, N2)) = (N - m) % N
    /\ Dec(N, P, Q, (c * Enc(N, (m * m) % N, 2)) % N2) = (m + m * m) % N
    /\ Dec(N, P, Q, PowMod(c, 5, N2)) = (5 * m) % N
\* different units give different ciphertexts: fresh randomness always shows
Injective == steps = 0 => \A m \in {0, 1, N - 1} : \A r, s \in {x \in 1..N - 1 : Gcd(x, N) = 1} :
    r # s => Enc(N, m, r) # Enc(N, m, s)
=============================================================================
