------------------------------ MODULE Settings ------------------------------
(* The documented settings of every parameter class. A value is abstract: its kind, a number in thousandths,  *)
(* its text and that text in lower case, and the elements of a list. An object is a root class with some      *)
(* settings assigned, each setting belonging to the root or to a parameter object nested in it.               *)
EXTENDS Integers, Sequences
Ints == {"int"}  Nums == {"int", "float"}
Name(v, S) == v.k = "str" /\ v.s \in S
Cased(v, S) == v.k = "str" /\ v.low \in S
Whole(v, lo) == v.k = "int" /\ v.n >= 1000 * lo
Num(v) == v.k \in Nums
Bool(v) == v.k = "bool"
Objectives == {"lse", "lae", "huber", "fair", "log_cosh", "tweedie"}
\* classes nested in a root class
Inner(root) == CASE root = "BoostingTreeParam" -> {"DecisionTreeParam", "ObjectiveParam", "EncryptParam", "EncryptedModeCalculatorParam", "PredictParam", "CrossValidationParam", "EvaluateParam"}
                 [] root = "CrossValidationParam" -> {"EvaluateParam"}
                 [] root = "FeatureBinningParam" -> {"TransformParam"}
                 [] OTHER -> {}
Roots == {"BoostingTreeParam", "DecisionTreeParam", "ObjectiveParam", "EncryptParam", "EncryptedModeCalculatorParam", "PredictParam", "CrossValidationParam", "EvaluateParam", "FeatureBinningParam", "TransformParam"}
Names(c) == CASE c = "BoostingTreeParam" -> {"task_type", "learning_rate", "num_trees", "subsample_feature_rate", "n_iter_no_change", "tol", "bin_num"}
              [] c = "DecisionTreeParam" -> {"criterion_method", "criterion_params", "max_depth", "min_sample_split", "min_impurity_split", "min_leaf_node", "max_split_nodes", "feature_importance_type", "n_iter_no_change", "tol"}
              [] c = "ObjectiveParam" -> {"objective", "params"}
              [] c = "EncryptParam" -> {"method", "key_length"}
              [] c = "EncryptedModeCalculatorParam" -> {"mode", "re_encrypted_rate"}
              [] c = "PredictParam" -> {"with_proba", "threshold"}
              [] c = "CrossValidationParam" -> {"n_splits", "mode", "role", "shuffle", "random_seed", "need_cv"}
              [] c = "EvaluateParam" -> {"eval_type", "pos_label"}
              [] c = "FeatureBinningParam" -> {"method", "compress_thres", "head_size", "error", "bin_num", "cols", "adjustment_factor", "local_only", "need_run"}
              [] c = "TransformParam" -> {"transform_cols", "transform_type"}
Settings(root) == {<<c, n>> : c \in {root} \cup Inner(root), n \in UNION {Names(x) : x \in Roots}} \cap UNION {{<<c, n>> : n \in Names(c)} : c \in Roots}
\* one setting on its own
Alone(c, n, v) ==
    CASE c = "BoostingTreeParam" /\ n = "task_type" -> Name(v, {"classification", "regression"})
      [] c = "BoostingTreeParam" /\ n = "num_trees" -> Whole(v, 1)
      [] c = "BoostingTreeParam" /\ n = "subsample_feature_rate" -> Num(v) /\ v.n >= 0 /\ v.n <= 1000
      [] c = "BoostingTreeParam" /\ n = "bin_num" -> Whole(v, 2)
      [] n \in {"learning_rate", "tol", "min_impurity_split", "threshold"} -> Num(v)
      [] n \in {"n_iter_no_change", "with_proba", "shuffle", "need_cv", "local_only", "need_run"} -> Bool(v)
      [] n = "criterion_method" -> Cased(v, {"xgboost"})
      [] n = "criterion_params" -> v.k = "list" /\ Len(v.l) > 0 /\ v.l[1].k \in Nums
      [] n \in {"max_depth", "max_split_nodes", "n_splits", "random_seed", "compress_thres", "head_size", "key_length"} -> Whole(v, 1)
      [] c = "FeatureBinningParam" /\ n = "bin_num" -> Whole(v, 1)
      [] n \in {"min_sample_split", "min_leaf_node"} -> v.k = "int"
      [] n = "feature_importance_type" -> Cased(v, {"split", "gain"})
      [] c = "EncryptParam" /\ n = "method" -> v.k = "str"
      [] c = "EncryptedModeCalculatorParam" /\ n = "mode" -> Cased(v, {"strict", "fast", "balance"})
      [] c = "CrossValidationParam" /\ n = "mode" -> Name(v, {"hetero", "homo"})
      [] n = "role" -> Name(v, {"guest", "host", "arbiter"})
      [] n = "eval_type" -> Cased(v, {"binary", "multi", "regression"})
      [] n = "pos_label" -> v.k \in {"str", "float", "int"}
      [] c = "FeatureBinningParam" /\ n = "method" -> Cased(v, {"quantile"})
      [] n = "error" -> v.k = "float" /\ v.n >= 0 /\ v.n < 1000
      [] n = "adjustment_factor" -> v.k = "float" /\ v.n > 0 /\ v.n < 1000
      [] n = "cols" -> v.k \in {"list", "int"}
      [] n = "transform_cols" -> v.k \in {"none", "list"} \/ (v.k = "int" /\ v.n = 0 - 1000)
      [] n = "transform_type" -> v.k = "none" \/ Name(v, {"bin_num"})
      [] OTHER -> TRUE
\* settings that are judged together
Has(a, c, n) == \E i \in 1..Len(a) : a[i].c = c /\ a[i].n = n
Val(a, c, n) == LET i == CHOOSE x \in 1..Len(a) : a[x].c = c /\ a[x].n = n /\ \A y \in (x + 1)..Len(a) : ~(a[y].c = c /\ a[y].n = n) IN a[i].v
Or(a, c, n, d) == IF Has(a, c, n) THEN Val(a, c, n) ELSE d
Str(t) == [k |-> "str", n |-> 0, s |-> t, low |-> t, l |-> <<>>]
Objective(task, o, p) ==
    IF o.k = "none" THEN TRUE
    ELSE CASE task = "classification" -> Name(o, {"cross_entropy"})
           [] task = "regression" -> Cased(o, Objectives) /\ (o.low \in {"huber", "fair", "tweedie"} =>
                  p.k = "list" /\ Len(p.l) > 0 /\ p.l[1].k \in Nums /\ p.l[1].n > 0 /\ (o.low = "tweedie" => p.l[1].n >= 1000 /\ p.l[1].n < 2000))
           [] OTHER -> Cased(o, Objectives \cup {"cross_entropy"})
TaskOf(root, task, a) == IF root = "BoostingTreeParam" THEN LET t == Or(a, root, "task_type", Str("classification")) IN (IF t.k = "str" THEN t.s ELSE "?") ELSE task
NoneV == [k |-> "none", n |-> 0, s |-> "", low |-> "", l |-> <<>>]
Together(root, task, a) ==
    /\ (root = "ObjectiveParam" \/ "ObjectiveParam" \in Inner(root)) =>
          Objective(TaskOf(root, task, a), Or(a, "ObjectiveParam", "objective", Str("cross_entropy")), Or(a, "ObjectiveParam", "params", NoneV))
    /\ Has(a, "EncryptedModeCalculatorParam", "re_encrypted_rate") =>
          (Or(a, "EncryptedModeCalculatorParam", "mode", Str("strict")).low = "balance" => Num(Val(a, "EncryptedModeCalculatorParam", "re_encrypted_rate")))
Accepted(root, task, a) == (\A i \in 1..Len(a) : Alone(a[i].c, a[i].n, a[i].v)) /\ Together(root, task, a)
\* names are kept as documented
Stored(c, n, v) == IF v.k # "str" THEN v.s
                   ELSE IF <<c, n>> = <<"EncryptParam", "method">> THEN (IF v.low = "paillier" THEN "Paillier" ELSE v.s)
                   ELSE IF n \in {"criterion_method", "feature_importance_type", "eval_type", "objective"} \/ <<c, n>> \in {<<"EncryptedModeCalculatorParam", "mode">>, <<"FeatureBinningParam", "method">>} THEN v.low ELSE v.s
\* cases the documentation leaves open
Open(root, task, a) == \E i \in 1..Len(a) : LET c == a[i].c n == a[i].n v == a[i].v IN
    \/ <<c, n>> = <<"EncryptParam", "method">> /\ v.k = "none"
    \/ n = "max_split_nodes" /\ v.n > 65536000
    \/ n \in {"min_sample_split", "min_leaf_node"} /\ v.k = "int" /\ v.n <= 0
    \/ n \in {"learning_rate", "tol", "min_impurity_split", "threshold"} /\ Num(v) /\ v.n < 0
    \/ n = "num_trees" /\ v.k = "float"
    \/ n = "random_seed" /\ v.n <= 0
    \/ n \in {"error", "adjustment_factor"} /\ v.k = "int"
    \/ n = "re_encrypted_rate" /\ (~Num(v) \/ v.n < 0) /\ Or(a, c, "mode", Str("strict")).low # "balance"
    \/ n = "re_encrypted_rate" /\ v.n < 0
    \/ n \in {"criterion_params"} /\ v.k = "list" /\ Len(v.l) > 0 /\ v.l[1].n < 0
    \/ n \in {"cols", "transform_cols"} /\ (v.k = "list" /\ \E j \in 1..Len(v.l) : v.l[j].k # "int")
    \/ n = "cols" /\ v.k = "int" /\ v.n < 0 - 1000
    \/ n = "objective" /\ v.k = "str" /\ v.s # v.low /\ TaskOf(root, task, a) \notin {"regression"}
    \/ n = "objective" /\ v.low = "cross_entropy" /\ v.s # v.low
    \/ n = "params" /\ Or(a, c, "objective", Str("cross_entropy")).low \notin {"huber", "fair", "tweedie"}
    \/ <<c, n>> \in {<<"BoostingTreeParam", "task_type">>, <<"CrossValidationParam", "mode">>, <<"CrossValidationParam", "role">>} /\ v.s # v.low
    \/ n = "transform_type" /\ v.s # v.low
    \/ n = "method" /\ v.low = "bucket"
=============================================================================
