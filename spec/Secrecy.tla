------------------------------- MODULE Secrecy -------------------------------
(* What the parties of one boosting run learn from the wire. Values are symbolic terms: [t |-> "pub", v] what  *)
(* everybody may know (ids, counts, positions), [t |-> "plain", v] a number, [t |-> "enc", v, r] a ciphertext  *)
(* of v with randomness r (r = 0: none), [t |-> "key"] the private key. Deduction: a plain term gives its      *)
(* value; a ciphertext gives it to whoever holds the key, or to anyone when it was made without randomness     *)
(* (encrypt all candidates and compare); two ciphertexts with the same randomness give their difference, and   *)
(* with one of the two values known the other.                                                               *)
EXTENDS Integers, Sequences, FiniteSets
Pub(v) == [t |-> "pub", v |-> <<v, 0, 0>>, r |-> 0]
Plain(v) == [t |-> "plain", v |-> v, r |-> 0]
Enc(v, r) == [t |-> "enc", v |-> v, r |-> r]
Key == [t |-> "key", v |-> <<"key", 0, 0>>, r |-> 0]
\* values that terms k reveal to a party (haskey: it owns the private key)
Direct(k, haskey) == {x.v : x \in {y \in k : y.t = "plain" \/ (y.t = "enc" /\ (haskey \/ y.r = 0 \/ Key \in k))}}
                     \cup (IF Key \in k THEN {<<"key", 0, 0>>} ELSE {})
Pairs(k) == {q \in k \X k : q[1].t = "enc" /\ q[2].t = "enc" /\ q[1].r = q[2].r /\ q[1].v # q[2].v}
Learns(k, haskey) == Direct(k, haskey) \cup UNION {{q[1].v, q[2].v} : q \in Pairs(k)}
=============================================================================
