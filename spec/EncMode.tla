------------------------------ MODULE EncMode ------------------------------
(* The encryption-mode calculator. A call is a record: mode, rate and the drawn number (in units of 1/1000), the  *)
(* input table [k |-> row of integers]. cts maps keys to rows of ciphertexts [v, fresh], v the decrypted value.   *)
EXTENDS Integers, Sequences, FiniteSets
\* must every row be newly encrypted in this call?
MustFresh(mode, first, within) == mode = "strict" \/ first \/ (mode = "balance" /\ within)
\* rows never seen before have no previous ciphertext
FreshRow(mode, first, within, known) == MustFresh(mode, first, within) \/ ~known
=============================================================================
