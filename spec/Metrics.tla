------------------------------ MODULE Metrics ------------------------------
(* Names under which a component reports: its flow identifier is the task's and the phase's name, and under       *)
(* cross-validation every metric belongs to a fold and its curve to the flow.                                      *)
EXTENDS Integers, Sequences, TLC
FlowId(task, flow) == task \o "." \o flow
MetricName(cv, fold, name) == IF cv THEN name \o "." \o ToString(fold) ELSE name
Prefixed(cv, id, name) == IF cv THEN name \o "_" \o id ELSE name
\* the curve a metric's description names: none before a flow is set
Curve(cv, flow, name) == IF ~cv THEN <<name>> ELSE IF flow = <<>> THEN <<>> ELSE flow
\* which flow each phase of a run belongs to (cross-validation and one versus rest set their own)
FlowOf(phase, what, trained) ==
    CASE phase = "fit" -> IF what = "data" THEN "fit" ELSE "train"
      [] phase = "predict" -> IF what = "eval" /\ trained THEN "validate" ELSE "predict"
      [] phase = "transform" -> "transform"
      [] OTHER -> ""
=============================================================================
