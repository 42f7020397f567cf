------------------------------- MODULE FixedMC -------------------------------
(* Fixed-point numbers modulo N: a register is [x, e] (residue and exponent, base B) next to the exact number v   *)
(* it stands for, scaled by B^E. Operations align exponents by multiplying. A result is either exact or refused   *)
(* (the register is dropped). FAULT: "wrap" aligns and adds without looking at the range, "foreign" reduces sums  *)
(* modulo another number, "unsigned" multiplies residues as if they were positive and checks nothing.             *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, E, STEPS, FAULT
VARIABLES regs, steps, refused
vars == <<regs, steps, refused>>
M == N \div 3 - 1
B == 4
RECURSIVE Exp(_)
Exp(k) == IF k = 0 THEN 1 ELSE B * Exp(k - 1)
Sg(x) == IF x <= M THEN x ELSE x - N
Valid(x) == x <= M \/ x >= N - M
In(m) == m <= M /\ m >= 0 - M
Init == regs = <<>> /\ steps = 0 /\ refused = 0
Mx(a, b) == IF a > b THEN a ELSE b
Keep(m, e, v) == IF In(m) THEN regs' = Append(regs, [x |-> m % N, e |-> e, v |-> v]) /\ UNCHANGED refused
                 ELSE UNCHANGED regs /\ refused' = refused + 1
Encode == \E m \in {0 - M - 1, 0 - M, 0 - 1, 0, 1, 2, M, M + 1}, e \in 0..E : Keep(m, e, m * Exp(E - e))
Add == \E i, j \in 1..Len(regs) :
    LET a == regs[i] b == regs[j] e == Mx(a.e, b.e)
        ma == Sg(a.x) * Exp(e - a.e) mb == Sg(b.x) * Exp(e - b.e) IN
    CASE FAULT = "wrap" -> regs' = Append(regs, [x |-> (ma + mb) % N, e |-> e, v |-> a.v + b.v]) /\ UNCHANGED refused
      [] FAULT = "foreign" -> regs' = Append(regs, [x |-> (a.x * Exp(e - a.e) + b.x * Exp(e - b.e)) % (N + 7), e |-> e, v |-> a.v + b.v]) /\ UNCHANGED refused
      [] OTHER -> IF In(ma) /\ In(mb) THEN Keep(ma + mb, e, a.v + b.v) ELSE UNCHANGED regs /\ refused' = refused + 1
Mul == \E i, j \in 1..Len(regs) :
    LET a == regs[i] b == regs[j] IN
    /\ a.e + b.e <= E
    /\ IF FAULT = "unsigned" THEN regs' = Append(regs, [x |-> (a.x * b.x) % N, e |-> a.e + b.e, v |-> (a.v * b.v) \div Exp(E)]) /\ UNCHANGED refused
       ELSE Keep(Sg(a.x) * Sg(b.x), a.e + b.e, (a.v * b.v) \div Exp(E))
Next == steps < STEPS /\ steps' = steps + 1 /\ (Encode \/ Add \/ Mul)
Spec == Init /\ [][Next]_vars
\* whatever decodes decodes to the exact value
Exact == \A i \in 1..Len(regs) : LET r == regs[i] IN r.x < N /\ Valid(r.x) => Sg(r.x) * Exp(E - r.e) = r.v
\* a kept residue is one of a representable number
Inside == \A i \in 1..Len(regs) : regs[i].x < N /\ Valid(regs[i].x)
=============================================================================
