------------------------------ MODULE TraceKit ------------------------------
(* Validation of recorded executions. A trace is a record [id, ev, ...]; ev is a sequence of events logged  *)
(* from the real code. Every trace module supplies, by cfg substitution, the abstract initial state of a    *)
(* trace, the set of NAMES of the specification clauses an event violates in a state (empty: the event is a *)
(* step of the specification), the successor state, and the clauses violated at the end of the trace.      *)
(* Verdicts are total: every trace prints exactly one VERDICT line.                                         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS InitSt(_), Fails(_, _), Step(_, _), FinalFails(_)
Traces == JsonDeserialize(IOEnv.TRACE_FILE)
VARIABLES tr, l, st, verdict
kvars == <<tr, l, st, verdict>>

TInit == /\ tr \in 1..Len(Traces)
         /\ l = 1
         /\ st = InitSt(Traces[tr])
         /\ verdict = "run"

Consume ==
    /\ verdict = "run" /\ l <= Len(Traces[tr].ev)
    /\ LET e == Traces[tr].ev[l]
           f == Fails(st, e)
       IN IF f = {}
          THEN /\ st' = Step(st, e) /\ l' = l + 1 /\ UNCHANGED <<tr, verdict>>
          ELSE /\ verdict' = "rejected"
               /\ PrintT(<<"VERDICT", Traces[tr].id, "REJECTED", l, f>>)
               /\ UNCHANGED <<tr, l, st>>

Finish ==
    /\ verdict = "run" /\ l = Len(Traces[tr].ev) + 1
    /\ LET f == FinalFails(st)
       IN IF f = {}
          THEN verdict' = "accepted" /\ PrintT(<<"VERDICT", Traces[tr].id, "ACCEPTED", l, f>>)
          ELSE verdict' = "rejected" /\ PrintT(<<"VERDICT", Traces[tr].id, "REJECTED", l, f>>)
    /\ UNCHANGED <<tr, l, st>>

TNext == Consume \/ Finish
TSpec == TInit /\ [][TNext]_kvars
NoFinalFails(s) == {}
\* clause helper: {name} when the clause fails, {} when it holds
Bad(name, ok) == IF ok THEN {} ELSE {name}
=============================================================================
