---------------------------- MODULE PaillierTrace ----------------------------
(* Executions of the real Paillier code. kind "toy": the group elements are checked too; "big": exact dyadic     *)
(* numbers; "edge": integers a M + b near the limit of the range (M the largest representable integer);          *)
(* "keys": key generation, tables of whole small groups, foreign keys, freshness.                                *)
EXTENDS Paillier, Dyadic, TraceKit
TInitSt(t) == [kind |-> t.kind, n |-> t.n, p |-> t.p, q |-> t.q, m |-> t.m, rem |-> t.rem, regs |-> <<>>]
Edge(s) == s.kind = "edge"
Plus(s, x, y) == IF Edge(s) THEN <<x[1] + y[1], x[2] + y[2]>> ELSE DAdd(x, y)
Minus(s, x, y) == IF Edge(s) THEN <<x[1] - y[1], x[2] - y[2]>> ELSE DSub(x, y)
Times(s, x, y) == IF Edge(s) THEN <<x[1] * y[1], x[2] * y[1]>> ELSE DMul(x, y)
Above(x, a, b) == x[1] > a \/ (x[1] = a /\ x[2] > b)
Fits(s, v) == CASE s.kind = "toy" -> InRange(s.m, v[1])
                [] Edge(s) -> ~Above(v, 1, 0) /\ ~Above(<<0 - v[1], 0 - v[2]>>, 1, 0)
                [] OTHER -> TRUE
\* left the range but not so far as to come round to it again
Gap(s, v) == CASE s.kind = "toy" -> InGap(s.n, s.m, v[1])
               [] Edge(s) -> LET U(x) == Above(x, 1, 0) /\ ~Above(x, 2, s.rem - 1) IN U(v) \/ U(<<0 - v[1], 0 - v[2]>>)
               [] OTHER -> FALSE
Value(s, e) ==
    LET r == s.regs IN
    CASE e.op = "enc" -> e.v
      [] e.op = "add" -> Plus(s, r[e.i], r[e.j]) [] e.op = "sub" -> Minus(s, r[e.i], r[e.j])
      [] e.op \in {"addp", "radd"} -> Plus(s, r[e.i], e.v) [] e.op = "subp" -> Minus(s, r[e.i], e.v)
      [] e.op = "rsub" -> Minus(s, e.v, r[e.i])
      [] e.op \in {"mulp", "rmul"} -> Times(s, r[e.i], e.v) [] e.op = "divp" -> DDiv(r[e.i], e.v)
Arith == {"enc", "add", "sub", "addp", "radd", "subp", "rsub", "mulp", "rmul", "divp"}
Scalar == {"enc", "addp", "radd", "subp", "rsub", "mulp", "rmul"}
\* subtracting a plain number may be done by adding its negative, which is in the range as well
Takes(s, e) == e.op \notin Scalar \/ (Edge(s) /\ e.op \in {"mulp", "rmul"}) \/ Fits(s, e.v)
Fl(s, e) ==
    CASE e.op \in Arith ->
           IF Takes(s, e)
           THEN Bad("operations on numbers in the range succeed", e.out = "ok")
                \cup (IF s.kind = "toy" /\ e.out = "ok"
                      THEN Bad("ciphertexts are units modulo the square of the modulus", Unit(e.c, s.n))
                           \cup Bad("the ciphertext stands for the plain result", Unit(e.c, s.n) => Dec(s.n, s.p, s.q, e.c) = Value(s, e)[1] % s.n)
                      ELSE {})
           ELSE Bad("a number outside the range is refused", e.out # "ok")
      [] e.op = "dec" -> LET v == s.regs[e.i] IN
           IF Fits(s, v) THEN Bad("decryption gives the plain result", e.out = "ok" /\ e.v = v)
           ELSE IF Gap(s, v) THEN Bad("a result that left the range is noticed", e.out # "ok") ELSE {}
      [] e.op = "rencs" -> Bad("raw encryption stands for its plaintext and lies in the group",
               \A k \in 1..Len(e.ms) : e.cs[k] > 0 /\ Unit(e.cs[k], s.n) /\ Dec(s.n, s.p, s.q, e.cs[k]) = e.ms[k])
      [] e.op = "rdecs" -> Bad("raw decryption inverts encryption on the whole group",
               \A k \in 1..Len(e.cs) : e.ms[k] = Dec(s.n, s.p, s.q, e.cs[k]))
      [] e.op = "enctab" -> Bad("every representable integer survives encryption", \A k \in 1..Len(e.vs) : e.ws[k] = e.vs[k])
      [] e.op = "room" -> Bad("the range leaves room to notice overflow", 3 * s.m < s.n /\ s.m > 0)
      [] e.op = "refuse" -> Bad(e.what, e.out # "ok")
      [] e.op = "differ" -> Bad("encrypting the same number twice gives different ciphertexts", e.n = e.distinct)
      [] e.op = "keygen" -> Bad("key generation succeeds", e.out = "ok")
           \cup (IF e.out # "ok" THEN {} ELSE
                Bad("a key has two different prime factors", e.prime = 1 /\ e.distinct = 1 /\ e.product = 1)
           \cup Bad("a key has the requested number of bits", e.bits = e.want)
           \cup Bad("every representable number survives encryption under a generated key", e.roundtrip = 1))
      [] e.op = "same" -> Bad(e.what, e.got = e.want)
St(s, e) == IF e.op \in Arith /\ Takes(s, e) THEN [s EXCEPT !.regs = Append(@, Value(s, e))] ELSE s
Fin(s) == {}
=============================================================================
