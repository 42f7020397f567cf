------------------------------ MODULE Paillier ------------------------------
(* Additively homomorphic encryption with n = p q and generator n + 1. A ciphertext of the residue m is         *)
(* (n m + 1) r^n modulo n^2 for a unit r. Numbers in -M..M stand for residues; M leaves room to notice overflow.*)
EXTENDS Integers, Sequences
RECURSIVE PowMod(_, _, _)
PowMod(b, e, m) == IF e = 0 THEN 1 % m
                   ELSE LET h == PowMod((b * b) % m, e \div 2, m) IN IF e % 2 = 1 THEN (b * h) % m ELSE h
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* extended Euclid: <<g, x>> with a x = g modulo b
RECURSIVE Euc(_, _, _, _)
Euc(a, b, x, y) == IF b = 0 THEN <<a, x>> ELSE Euc(b, a % b, y, x - (a \div b) * y)
Inv(a, m) == LET e == Euc(a % m, m, 1, 0) IN e[2] % m
\* for p below 2^30
Prime(p) == p > 1 /\ \A d \in 2..(IF p < 1000 THEN 32 ELSE IF p < 1000000 THEN 1000 ELSE 32768) : d * d > p \/ p % d # 0
Enc(n, m, r) == (((n * m + 1) % (n * n)) * PowMod(r, n, n * n)) % (n * n)
Unit(c, n) == c > 0 /\ c < n * n /\ Gcd(c, n) = 1
\* decryption, from the order of the group
Dec(n, p, q, c) == LET f == (p - 1) * (q - 1) IN ((((PowMod(c, f, n * n) - 1) \div n) % n) * Inv(f, n)) % n
\* the signed number of a residue; two values mark overflow and corruption
Over == 1000000
Corrupt == 1000001
Signed(n, M, x) == IF x >= n \/ x < 0 THEN Corrupt ELSE IF x <= M THEN x ELSE IF x >= n - M THEN x - n ELSE Over
InRange(M, v) == v <= M /\ v >= 0 - M
\* after adding up, v may have left the range: noticed when it lies in the gap, otherwise nothing is promised
InGap(n, M, v) == \/ v > M /\ v < n - M
                  \/ v < 0 - M /\ v > M - n
=============================================================================
