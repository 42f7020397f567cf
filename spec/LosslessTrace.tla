--------------------------- MODULE LosslessTrace ---------------------------
(* Trainings of one task on differently distributed columns, with other batch sizes and other encryption. The *)
(* first is the stand-alone trainer on the pooled columns; every other must give the same.                    *)
EXTENDS Lossless, TraceKit
TInitSt(t) == [ref |-> <<>>, tol |-> t.tol]
TFails(s, e) ==
    IF e.out # "ok" THEN {"training completes for every party"}
    ELSE IF s.ref = <<>> THEN {}
    ELSE LET q == s.ref[1] IN
           Bad("the scores of the training samples are those of the pooled training", NearRows(e.f, q.f, s.tol))
      \cup Bad("the losses are those of the pooled training", NearSeq(e.loss, q.loss, s.tol))
      \cup Bad("as many trees are grown as in the pooled training", e.trees = q.trees)
      \cup Bad("the model predicts its training samples as the pooled model does", NearRows(e.p, q.p, s.tol))
TStep(s, e) == IF s.ref = <<>> THEN [s EXCEPT !.ref = <<e>>] ELSE s
TFinal(s) == {}
=============================================================================
