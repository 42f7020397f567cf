--------------------------- MODULE SettingsTrace ---------------------------
(* Recorded checks of parameter objects and applications of configurations. A configuration names settings by *)
(* paths; leaves lists every setting of the object with a code of its value.                                  *)
EXTENDS Settings, TraceKit, FiniteSets
TInitSt(t) == [x |-> 0]
SetOf(q) == {q[i] : i \in 1..Len(q)}
At(q, p) == q[CHOOSE i \in 1..Len(q) : q[i][1] = p][2]
Over(before, cfg) == {<<before[i][1], IF \E j \in 1..Len(cfg) : cfg[j][1] = before[i][1] THEN At(cfg, before[i][1]) ELSE before[i][2]>> : i \in 1..Len(before)}
TFails(s, e) ==
    CASE e.op = "check" -> LET ok == Accepted(e.root, e.task, e.a) IN
              Bad("documented values are accepted", ok => e.out = "ok")
         \cup Bad("undocumented values are refused", ~ok => e.out \notin {"ok", "hang"})
         \cup (IF e.out = "ok" /\ ok THEN Bad("checking leaves values as given, names in their documented form", \A i \in 1..Len(e.a) : e.a[i].v.k = "str" => e.kept[i] = Stored(e.a[i].c, e.a[i].n, e.a[i].v)) ELSE {})
         \cup (IF e.out = "ok" THEN Bad("checking changes no other setting", e.same = 1) ELSE {})
      [] e.op = "config" ->
              Bad("a configuration that is not a mapping is refused", (e.mapping = 0) => e.out \notin {"ok", "hang"})
         \cup Bad("a configuration is applied", (e.mapping = 1) => e.out = "ok")
         \cup (IF e.mapping = 1 /\ e.out = "ok" THEN
                    Bad("exactly the settings named are set, all others keep their values", SetOf(e.after) = Over(e.before, e.cfg))
               \cup Bad("applying a configuration returns the same object", e.self = 1) ELSE {})
      [] e.op = "others" -> Bad("other objects keep their defaults", SetOf(e.after) = SetOf(e.before)) \cup Bad("the configuration itself is unchanged", e.kept = 1)
TStep(s, e) == s
TFinal(s) == {}
=============================================================================
