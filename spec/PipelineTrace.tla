---------------------------- MODULE PipelineTrace ----------------------------
(* Recorded runs of components. rows are <<source, tag>> pairs found in the output; n the number of rows.      *)
EXTENDS Pipeline, Metrics, TraceKit
TInitSt(t) == [cv |-> IF "cv" \in DOMAIN t THEN t.cv ELSE FALSE, task |-> "", flow |-> <<>>, id |-> "", fold |-> 0]
SetOf(q) == {q[k] : k \in 1..Len(q)}
SubCalls(q) == SelectSeq(q, LAMBDA c : c[1] # "init" \/ TRUE)
TFails(s, e) ==
    CASE e.op = "run" -> LET i == e.inp IN
              Bad("an invalid configuration stops the run", (~i.ok) => e.out \notin {"ok", "hang"})
         \cup Bad("the run completes", i.ok => e.out = "ok")
         \cup (IF e.out = "ok" THEN
                    Bad("exactly the phases called for are run, in order", e.calls = Plan(i))
               \cup Bad("the settings are in place before anything else", e.early = 1)
               \cup Bad("the output holds every prediction, tagged by its source", SetOf(e.rows) = Tags(i) /\ e.n = e.want)
               \cup Bad("predictions come under the fixed header", Tags(i) # {} => e.header = Header /\ e.sid = 1)
               \cup Bad("a component switched off passes its data through", (Passes(i)) => e.passed = (IF i.data THEN "data" ELSE "none"))
               \cup Bad("the result of fitting or transforming plain data is the output", Transforms(i) => e.passed = "made")
               \cup Bad("each phase runs under its own flow of the task",
                        LET q == SelectSeq(e.calls, LAMBDA c : c[1] \notin {"init", "load"}) IN
                        Len(q) = Len(e.flows) /\ \A k \in 1..Len(q) : LET f == FlowOf(q[k][1], q[k][2], i.train) IN f # "" => e.flows[k] = FlowId(e.task, f))
               ELSE Bad("nothing runs after a refused configuration", e.calls = <<>> \/ i.ok))
      [] e.op = "booster" ->
              Bad("the run completes", e.out = "ok")
         \cup (IF e.out # "ok" THEN {} ELSE
                    Bad("the output holds every prediction, tagged by its source", SetOf(e.rows) = SetOf(e.want) /\ Len(e.rows) = Len(e.want))
               \cup Bad("predictions come under the fixed header", e.header = Header)
               \cup Bad("the configuration was applied", e.applied = 1))
      [] e.op = "setup" -> Bad("the run completes", e.out = "ok")
      [] e.op = "flow" -> Bad("each phase runs under its own flow of the task", e.out = "ok" /\ e.got = FlowId(s.task, e.v))
      [] e.op = "name" -> Bad("metrics are named after their fold and flow under cross-validation", e.out = "ok" /\ e.got = Prefixed(s.cv, s.id, e.v))
      [] e.op \in {"metric", "meta"} ->
              Bad("metrics are named after their fold and flow under cross-validation", e.out = "ok" /\ e.got = MetricName(s.cv, s.fold, e.v))
         \cup Bad("reports reach the tracker unchanged", e.kept = 1)
         \cup Bad("a curve is named after its flow", e.op = "meta" => e.curve = Curve(s.cv, s.flow, e.v))
      [] OTHER -> Bad("settings are taken", e.out = "ok")
TStep(s, e) ==
    CASE e.op = "task" -> [s EXCEPT !.task = e.v]
      [] e.op = "flow" -> [s EXCEPT !.flow = <<e.v>>, !.id = FlowId(s.task, e.v)]
      [] e.op = "fold" -> [s EXCEPT !.fold = IF e.v = "10" THEN 10 ELSE IF e.v = "9" THEN 9 ELSE IF e.v = "2" THEN 2 ELSE IF e.v = "1" THEN 1 ELSE 0]
      [] OTHER -> s
TFinal(s) == {}
=============================================================================
