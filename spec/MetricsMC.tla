----------------------------- MODULE MetricsMC -----------------------------
(* A component whose task, flow and fold are set in any order between reports. FAULT: "fold" leaves the fold out, *)
(* "task" keeps the flow identifier of the task set first, "curve" names the metric's curve after the whole flow  *)
(* identifier, "late" reports under the fold set before.                                                           *)
EXTENDS Metrics, Json
CONSTANTS TASKS, FLOWS, NAMES, FOLDS, STEPS, FAULT, GENERATE
VARIABLES cv, task, flow, id, fold, old, first, seen, script, n
vars == <<cv, task, flow, id, fold, old, first, seen, script, n>>
Init == cv \in BOOLEAN /\ task = "" /\ flow = <<>> /\ id = "" /\ fold = 0 /\ old = 0 /\ first = <<>> /\ seen = <<>> /\ script = <<>> /\ n = 0
Note(a, v) == script' = (IF GENERATE THEN Append(script, <<a, v>>) ELSE script) /\ n' = n + 1
Task(t) == task' = t /\ first' = (IF first = <<>> THEN <<t>> ELSE first) /\ Note("task", t) /\ UNCHANGED <<cv, flow, id, fold, old, seen>>
Flow(f) == flow' = <<f>> /\ id' = FlowId(IF FAULT = "task" /\ first # <<>> THEN first[1] ELSE task, f) /\ Note("flow", f) /\ UNCHANGED <<cv, task, fold, old, first, seen>>
Fold(k) == fold' = k /\ old' = fold /\ Note("fold", ToString(k)) /\ UNCHANGED <<cv, task, flow, id, first, seen>>
Used == IF FAULT = "late" THEN old ELSE fold
Report(m, kind) ==
    /\ seen' = <<[m |-> m, task |-> task, flow |-> flow, fold |-> fold, id |-> id,
                  name |-> IF FAULT = "fold" THEN m ELSE MetricName(cv, Used, m),
                  curve |-> IF FAULT = "curve" /\ cv /\ flow # <<>> THEN <<id>> ELSE Curve(cv, flow, m)]>>
    /\ Note(kind, m) /\ UNCHANGED <<cv, task, flow, id, fold, old, first>>
Kinds == {"metric", "meta", "name"}
Next == n < STEPS /\
    IF GENERATE THEN \/ \E t \in {RandomElement(TASKS)} : Task(t) \/ \E f \in {RandomElement(FLOWS)} : Flow(f) \/ \E k \in {RandomElement(FOLDS)} : Fold(k)
                     \/ \E m \in {RandomElement(NAMES)}, k \in {RandomElement(Kinds)} : Report(m, k)
    ELSE (\E t \in TASKS : Task(t)) \/ (\E f \in FLOWS : Flow(f)) \/ (\E k \in FOLDS : Fold(k)) \/ (\E m \in NAMES : Report(m, "metric"))
Spec == Init /\ [][Next]_vars
Named == seen # <<>> => LET s == seen[1] IN s.name = (IF cv THEN s.m \o "." \o ToString(s.fold) ELSE s.m)
CurveIsFlow == (seen # <<>> /\ cv) => seen[1].curve = seen[1].flow
IdMatches == (seen # <<>> /\ flow # <<>>) => \E t \in TASKS \cup {""} : id = t \o "." \o flow[1]
\* the flow identifier carries the task that was set last before the flow
IdOfTask == [][\A f \in FLOWS : (flow' = <<f>> /\ id' # id) => id' = task \o "." \o f]_vars
Emit == (GENERATE /\ n = STEPS) => PrintT("BEHAVIOUR " \o ToJson([cv |-> cv, script |-> script]))
=============================================================================
