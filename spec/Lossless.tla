------------------------------ MODULE Lossless ------------------------------
(* The result of a training as far as the training samples can tell: a score vector per sample, the loss of   *)
(* every round and the prediction of every sample. Two trainings on the same pooled columns are the same when *)
(* these agree; numbers are in millionths and may differ by TOL in the last places.                           *)
EXTENDS Integers, Sequences
Near(a, b, tol) == a - b <= tol /\ b - a <= tol
NearSeq(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Near(a[i], b[i], tol)
NearRows(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearSeq(a[i], b[i], tol)
=============================================================================
