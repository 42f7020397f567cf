------------------------------ MODULE AffineMC ------------------------------
(* Sums, differences and multiples of affine ciphertexts for every key with modulus n in NS. FAULT: "offset"      *)
(* counts one offset whatever was added, "half" takes the upper half for negative numbers.                        *)
EXTENDS OtherCiphers, TLC
CONSTANTS NS, VALS, STEPS, FAULT
VARIABLES key, regs, steps
vars == <<key, regs, steps>>
Init == /\ key \in {[a |-> a, b |-> b, n |-> n] : n \in NS, a \in {1, 2, 3, 7, 10, 11}, b \in {0, 1, 5, 12}}
        /\ Gcd(key.a, key.n) = 1 /\ regs = <<>> /\ steps = 0
Put == \E v \in VALS : regs' = Append(regs, [x |-> AEnc(key, v), v |-> v])
Add == \E i, j \in 1..Len(regs) : LET x == regs[i] y == regs[j] IN
       regs' = Append(regs, [x |-> [c |-> x.x.c + y.x.c, m |-> IF FAULT = "offset" THEN 1 ELSE x.x.m + y.x.m], v |-> x.v + y.v])
Mul == \E i \in 1..Len(regs), k \in {0 - 2, 0 - 1, 0, 3} : LET x == regs[i] IN
       regs' = Append(regs, [x |-> [c |-> x.x.c * k, m |-> x.x.m * k], v |-> x.v * k])
Next == steps < STEPS /\ steps' = steps + 1 /\ UNCHANGED key /\ (Put \/ Add \/ Mul)
Spec == Init /\ [][Next]_vars
D(x) == IF FAULT # "half" THEN ADec(key, x) ELSE LET p == ADec(key, x) % key.n IN IF 2 * p > key.n THEN p - key.n ELSE p
Faithful == \A i \in 1..Len(regs) : ARange(key.n, regs[i].v) => D(regs[i].x) = regs[i].v
\* textbook RSA on a small key, for all messages
Rsa == steps = 0 => \A m \in 0..54 : PowMod(PowMod(m, 3, 55), 27, 55) = m /\
                    \A l \in 0..54 : (PowMod(m, 3, 55) * PowMod(l, 3, 55)) % 55 = PowMod((m * l) % 55, 3, 55)
=============================================================================
