---------------------------- MODULE OtherCiphers ----------------------------
(* Affine cipher: the number v (an integer in units of the encoding precision) becomes a v + b modulo n; a         *)
(* ciphertext remembers how many offsets b it contains. Residues in the top tenth stand for negative numbers.     *)
(* RSA: m becomes m^e modulo n.                                                                                    *)
EXTENDS Paillier
AEnc(k, v) == [c |-> (k.a * v + k.b) % k.n, m |-> 1]
ADec(k, x) == LET p == (Inv(k.a, k.n) * (((x.c % k.n) - (x.m * k.b)) % k.n)) % k.n IN IF 10 * p > 9 * k.n THEN p - k.n ELSE p
\* numbers that can be told apart
ARange(n, v) == 10 * v < 9 * n /\ 10 * v > 0 - n
=============================================================================
