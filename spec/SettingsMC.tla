----------------------------- MODULE SettingsMC -----------------------------
(* Checking as the code does it: class by class, setting by setting, the first bad one raising. The outcome    *)
(* must be that of the documented table. FAULT: "nested" leaves the inner objects unchecked, "case" compares   *)
(* names as written, "bool" takes truth values for numbers, "first" stops after the first setting of a class. *)
EXTENDS Settings, TLC, Json
CONSTANTS FAULT, GENERATE, PAIRS, JOINT, ROOTS
VARIABLES root, task, a, ph, todo, out
vars == <<root, task, a, ph, todo, out>>
V(kind, num, str, lw, lst) == [k |-> kind, n |-> num, s |-> str, low |-> lw, l |-> lst]
IV(x) == V("int", 1000 * x, "", "", <<>>)
FV(x) == V("float", x, "", "", <<>>)
Texts == { <<"xgboost", "xgboost">>, <<"XGBoost", "xgboost">>, <<"split", "split">>, <<"Gain", "gain">>, <<"gain", "gain">>, <<"Paillier", "paillier">>, <<"PAILLIER", "paillier">>,
           <<"rsa", "rsa">>, <<"strict", "strict">>, <<"Fast", "fast">>, <<"balance", "balance">>, <<"BALANCE", "balance">>, <<"hetero", "hetero">>, <<"homo", "homo">>, <<"guest", "guest">>,
           <<"host", "host">>, <<"arbiter", "arbiter">>, <<"binary", "binary">>, <<"Multi", "multi">>, <<"regression", "regression">>, <<"classification", "classification">>,
           <<"quantile", "quantile">>, <<"Quantile", "quantile">>, <<"bin_num", "bin_num">>, <<"cross_entropy", "cross_entropy">>, <<"lse", "lse">>, <<"LSE", "lse">>, <<"lae", "lae">>,
           <<"huber", "huber">>, <<"Huber", "huber">>, <<"fair", "fair">>, <<"log_cosh", "log_cosh">>, <<"tweedie", "tweedie">>, <<"", "">>, <<"str", "str">>, <<"None", "none">>, <<"1", "1">>, <<"true", "true">> }
Strs == {V("str", 0, t[1], t[2], <<>>) : t \in Texts}
Lists == {V("list", 0, "", "", q) : q \in {<<>>, <<IV(1)>>, <<FV(500)>>, <<FV(100), IV(2)>>, <<IV(0)>>, <<FV(0)>>, <<FV(1000)>>, <<FV(1500)>>, <<FV(2000)>>, <<FV(1999)>>, <<IV(2)>>, <<FV(0 - 500)>>, <<Str("a")>>, <<NoneV>>, <<IV(1), Str("a")>>,
           <<V("bool", 1000, "", "", <<>>)>>}}
Values == {IV(x) : x \in {0 - 2, 0 - 1, 0, 1, 2, 5, 1024, 65536, 65537}} \cup {FV(x) : x \in {0 - 500, 0, 1, 500, 999, 1000, 1001, 1500, 2000}} \cup Strs \cup Lists
          \cup {V("bool", 0, "", "", <<>>), V("bool", 1000, "", "", <<>>), NoneV, V("dict", 0, "", "", <<>>), V("tuple", 0, "", "", <<IV(1)>>)}
\* in the exhaustive runs a few values of every kind
Few == {IV(0), IV(1), IV(2), FV(0), FV(1000), FV(1500), Str("xgboost"), V("str", 0, "Fast", "fast", <<>>), Str("balance"), Str("classification"), Str("regression"), V("str", 0, "Huber", "huber", <<>>), NoneV, V("bool", 1000, "", "", <<>>), V("list", 0, "", "", <<FV(1000)>>)}
Tasks(r) == IF r = "ObjectiveParam" THEN {"", "classification", "regression"} ELSE {""}
D(S) == RandomElement(S)
Init == /\ root \in ROOTS /\ task \in Tasks(root) /\ a = <<>> /\ ph = "set" /\ todo = <<>> /\ out = "?"
Pool == IF GENERATE THEN Values ELSE Few
\* settings worth combining
Joint == {<<"BoostingTreeParam", "task_type">>, <<"ObjectiveParam", "objective">>, <<"ObjectiveParam", "params">>, <<"EncryptedModeCalculatorParam", "mode">>, <<"EncryptedModeCalculatorParam", "re_encrypted_rate">>}
Fit(cn) == CASE ~JOINT \/ ~GENERATE -> Pool
             [] cn[2] = "objective" -> {v \in Strs : v.low \in Objectives \cup {"cross_entropy", ""}} \cup {NoneV, IV(1)}
             [] cn[2] = "params" -> Lists \cup {NoneV, FV(1000), Str("1")}
             [] cn[2] = "task_type" -> {Str("regression"), Str("classification"), NoneV, Str("str")}
             [] cn[2] = "mode" -> {v \in Strs : v.low \in {"strict", "fast", "balance", "str"}}
             [] OTHER -> Few
Assign(cn, v) == /\ ph = "set" /\ Len(a) < PAIRS /\ ~Has(a, cn[1], cn[2])
                 /\ JOINT => cn \in Joint
                 /\ a' = Append(a, [c |-> cn[1], n |-> cn[2], v |-> v])
                 /\ UNCHANGED <<root, task, ph, todo, out>>
Classes == <<root>> \o [i \in 1..7 |-> <<"DecisionTreeParam", "ObjectiveParam", "EncryptParam", "EncryptedModeCalculatorParam", "PredictParam", "CrossValidationParam", "EvaluateParam">>[i]] \o <<"TransformParam">>
Start == /\ ph = "set" /\ (PAIRS > 1 => Len(a) = PAIRS) /\ ~Open(root, task, a) /\ ph' = "check" /\ out' = "ok"
         /\ todo' = SelectSeq(Classes, LAMBDA c : c = root \/ (c \in Inner(root) /\ FAULT # "nested"))
         /\ UNCHANGED <<root, task, a>>
Seen(v, c, n) == IF FAULT = "case" /\ n # "objective" THEN [v EXCEPT !.low = v.s] ELSE IF FAULT = "bool" /\ v.k = "bool" /\ n \notin {"n_iter_no_change", "with_proba", "shuffle", "need_cv", "local_only", "need_run"} THEN [v EXCEPT !.k = "int"] ELSE v
Mine(c) == SelectSeq(a, LAMBDA x : x.c = c)
BadOf(c) == LET m == Mine(c) IN \E i \in 1..(IF FAULT = "first" THEN (IF m = <<>> THEN 0 ELSE 1) ELSE Len(m)) : ~Alone(c, m[i].n, Seen(m[i].v, c, m[i].n))
Class == /\ ph = "check" /\ todo # <<>>
         /\ IF BadOf(Head(todo)) \/ (Head(todo) = "ObjectiveParam" /\ ~Objective(TaskOf(root, task, a), Or(a, "ObjectiveParam", "objective", Str("cross_entropy")), Or(a, "ObjectiveParam", "params", NoneV)))
               \/ (Head(todo) = "EncryptedModeCalculatorParam" /\ ~Together("EncryptedModeCalculatorParam", task, a))
            THEN out' = "raised" /\ ph' = "done" /\ todo' = <<>>
            ELSE todo' = Tail(todo) /\ out' = out /\ ph' = ph
         /\ UNCHANGED <<root, task, a>>
Done == ph = "check" /\ todo = <<>> /\ ph' = "done" /\ UNCHANGED <<root, task, a, todo, out>>
Next == \/ \E cn \in Settings(root) : \E v \in Fit(cn) : Assign(cn, v)
        \/ Start \/ (~GENERATE /\ (Class \/ Done))
Spec == Init /\ [][Next]_vars
AsDocumented == (ph = "done" /\ ~GENERATE) => (out = "ok") = Accepted(root, task, a)
Emit == (GENERATE /\ ph = "check") => PrintT("BEHAVIOUR " \o ToJson([root |-> root, task |-> task, a |-> a]))
=============================================================================
