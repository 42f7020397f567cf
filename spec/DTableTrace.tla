----------------------------- MODULE DTableTrace -----------------------------
EXTENDS DTable, TraceKit
TInitSt(t) == DInitSt
\* e.regs / e.schema: every register as the code shows it after the step; e.out: "ok" or the error
TFails(s, e) ==
    LET n == DStepSt(s, e) IN
    IF e.op = "bad" THEN Bad("malformed construction is refused", e.kind \in BadKinds => e.out # "ok")
                         \cup Bad("tables unchanged", e.regs = s.regs)
    ELSE IF e.out # "ok" THEN {"operation completes without error"}
    ELSE Bad("result shape", e.shape = "ok")
         \cup (IF e.shape # "ok" THEN {}
               ELSE (IF e.op \in TableOps
                     THEN Bad("result table of " \o e.op, e.regs[e.dst] = n.regs[e.dst])
                          \cup Bad("other tables unchanged", \A i \in 1..R : i # e.dst => e.regs[i] = s.regs[i])
                     ELSE Bad("no table changes", e.regs = s.regs))
                    \cup (IF e.op \in PairObs THEN Bad("pairs returned by " \o e.op, e.pairs = Observe(s.regs, e)) ELSE {})
                    \cup (IF e.op \in ScalarObs THEN Bad("value returned by " \o e.op, e.vals = Observe(s.regs, e)) ELSE {})
                    \cup Bad("schemas", e.schema = n.schema))
=============================================================================
