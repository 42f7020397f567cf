------------------------------ MODULE Pipeline ------------------------------
(* What running a component does. Inputs i: ok (the configuration is valid), cv, ovr (cross-validation, one   *)
(* versus rest asked for), run (switched on), model ("none", "model", "iso"), train, eval, data (given or     *)
(* not), any (some data given at all); ptrain, peval say whether predicting them yields rows.                 *)
EXTENDS Integers, Sequences
Loads(i) == ~i.cv /\ (i.model = "model" \/ (i.model = "iso" /\ ~i.ovr))
Phases(i) ==
    IF ~i.any \/ ~i.run THEN <<>>
    ELSE IF i.cv THEN << <<"cross_validation", "train">> >>
    ELSE IF i.ovr THEN (IF i.train THEN << <<"one_vs_rest_fit", "train">>, <<"one_vs_rest_predict", "train">> >> \o (IF i.eval THEN << <<"one_vs_rest_predict", "eval">> >> ELSE <<>>)
                        ELSE IF i.eval THEN << <<"one_vs_rest_predict", "eval">> >> ELSE <<>>)
    ELSE IF i.train THEN << <<"fit", "train">>, <<"predict", "train">> >> \o (IF i.eval THEN << <<"predict", "eval">> >> ELSE <<>>)
    ELSE IF i.eval THEN << <<"predict", "eval">> >>
    ELSE IF i.model = "model" THEN << <<"transform", "data">> >> ELSE << <<"fit", "data">> >>
Plan(i) == IF ~i.ok THEN << >> ELSE << <<"init", "">> >> \o (IF Loads(i) THEN << <<"load", "">> >> ELSE <<>>) \o Phases(i)
Is(c, name) == c[1] \in {name, "one_vs_rest_" \o name}
Predicts(i, what) == \E k \in 1..Len(Phases(i)) : Is(Phases(i)[k], "predict") /\ Phases(i)[k][2] = what
\* which predictions the output holds, and their tags
Tags(i) == (IF Predicts(i, "train") /\ i.ptrain THEN {<<"train", "train">>} ELSE {})
           \cup (IF Predicts(i, "eval") /\ i.peval THEN {<<"eval", IF i.train THEN "validation" ELSE "test">>} ELSE {})
Passes(i) == i.ok /\ i.any /\ ~i.run
Transforms(i) == i.ok /\ \E k \in 1..Len(Phases(i)) : Phases(i)[k][2] = "data"
Header == <<"label", "predict_result", "predict_score", "predict_detail", "type">>
=============================================================================
