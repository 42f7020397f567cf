----------------------------- MODULE OtherTrace -----------------------------
(* Affine programs (kind "toy": the key's modulus bounds what can be told apart; "big": always in range; values    *)
(* are integers in units of the encoding precision), RSA on small keys, element-wise helpers, modular helpers.     *)
EXTENDS OtherCiphers, TraceKit
RECURSIVE PowTwo(_)
PowTwo(k) == IF k <= 0 THEN 1 ELSE 2 * PowTwo(k - 1)
TInitSt(t) == [kind |-> t.kind, n |-> t.n, regs |-> <<>>]
Value(s, e) == CASE e.op = "enc" -> e.v [] e.op = "add" -> s.regs[e.i] + s.regs[e.j] [] e.op = "sub" -> s.regs[e.i] - s.regs[e.j]
                 [] e.op \in {"mul", "rmul"} -> s.regs[e.i] * e.v [] e.op = "zero" -> s.regs[e.i] [] e.op = "zsub" -> 0 - s.regs[e.i]
Arith == {"enc", "add", "sub", "mul", "rmul", "zero", "zsub"}
Fl(s, e) ==
    CASE e.op \in Arith -> Bad("affine encryption and arithmetic succeed", e.out = "ok")
      [] e.op = "dec" -> LET v == s.regs[e.i] IN
           IF s.kind = "big" \/ ARange(s.n, v) THEN Bad("affine decryption gives the plain result", e.out = "ok" /\ e.v = v) ELSE {}
      [] e.op = "near" -> Bad("affine decryption is within the encoding precision", e.ok = 1)
      [] e.op = "rsa" -> Bad("RSA is exponentiation and inverts itself", \A k \in 1..Len(e.ms) : e.cs[k] = PowMod(e.ms[k], e.e, e.n) /\ e.ds[k] = e.ms[k])
      [] e.op = "rsamul" -> Bad("RSA is multiplicative", \A k \in 1..Len(e.as) : e.ds[k] = (e.as[k] * e.bs[k]) % e.n)
      [] e.op = "powmod" -> Bad("modular powers are exact", \A k \in 1..Len(e.q) : e.q[k][4] = PowMod(e.q[k][1], e.q[k][2], e.q[k][3]))
      [] e.op = "invert" -> Bad("modular inverses are exact and refused where none exists",
             \A k \in 1..Len(e.q) : LET a == e.q[k][1] b == e.q[k][2] x == e.q[k][3] IN IF Gcd(a, b) = 1 THEN x >= 0 /\ x < b /\ (a * x) % b = 1 % b ELSE x = 0 - 1)
      [] e.op = "isqrt" -> Bad("integer square roots are exact", \A k \in 1..Len(e.q) : LET a == e.q[k][1] x == e.q[k][2] IN x >= 0 /\ x * x <= a /\ (x + 1) * (x + 1) > a)
      [] e.op = "primes" -> Bad("primes have at least the requested size and are prime", \A k \in 1..Len(e.q) : LET b == e.q[k][1] p == e.q[k][2] IN p >= PowTwo(b - 1) /\ Prime(p))
      [] e.op = "same" -> Bad(e.what, e.got = e.want)
      [] e.op = "refuse" -> Bad(e.what, e.out # "ok")
St(s, e) == IF e.op \in Arith THEN [s EXCEPT !.regs = Append(@, Value(s, e))] ELSE s
Fin(s) == {}
=============================================================================
