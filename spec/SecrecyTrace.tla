---------------------------- MODULE SecrecyTrace ----------------------------
(* Every message of a recorded run, summarised by the terms it carries (see Secrecy): ints - the plain whole    *)
(* numbers, fracs - how many plain numbers are not whole, ciphers, stale - ciphertexts carrying no randomness of *)
(* their own, repeats - ciphertexts already used in another message, keys - values revealing the private key,   *)
(* marks - strings containing a marked secret. Features, labels, gradients and bin numbers of the run are chosen *)
(* so that none of them is a whole number between 0 - 1 and d.lim, the range of ids, counts and positions.       *)
EXTENDS Secrecy, TraceKit
TInitSt(t) == [d |-> t]
Rng(q) == {q[i] : i \in 1..Len(q)}
Public(d, e) == e.fracs = 0 /\ \A x \in Rng(e.ints) : x >= 0 - 1 /\ x <= d.lim
\* the terms of the message
Terms(d, e) == {Plain(<<"int", x, 0>>) : x \in {y \in Rng(e.ints) : y < 0 - 1 \/ y > d.lim}}
               \cup (IF e.fracs > 0 THEN {Plain(<<"frac", e.fracs, 0>>)} ELSE {})
               \cup (IF e.marks > 0 THEN {Plain(<<"mark", 0, 0>>)} ELSE {})
               \cup (IF e.keys > 0 THEN {Key} ELSE {})
               \cup (IF e.stale > 0 THEN {Enc(<<"stale", 0, 0>>, 0)} ELSE {})
Fl(s, e) ==
    CASE e.op = "run" -> Bad("the run completes for every party", e.out = "ok")
      [] e.op = "msg" /\ e.dir = "down" ->
              Bad("the guest sends no number that is not an identifier, count or position", e.marks = 0 /\ Public(s.d, e))
         \cup Bad("the private key never travels", e.keys = 0)
         \cup Bad("every ciphertext the guest sends is freshly randomised", e.stale = 0 /\ e.repeats = 0)
         \cup Bad("gradients and hessians travel as ciphertexts only", e.enc = 1 => e.ciphers = 2 * s.d.n /\ e.ints = <<>> /\ e.fracs = 0)
         \cup Bad("what the guest sends teaches the hosts nothing secret", Learns(Terms(s.d, e), FALSE) = {})
      [] e.op = "msg" -> Bad("a host sends no feature value, bin or threshold", e.marks = 0 /\ Public(s.d, e))
St(s, e) == s
Fin(s) == {}
=============================================================================
