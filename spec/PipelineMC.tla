----------------------------- MODULE PipelineMC -----------------------------
(* A run in steps: configure, load, then the phases, each adding its predictions. FAULT: "noload" skips the   *)
(* model, "order" predicts before fitting, "lose" forgets the validation rows when training gave none, "tag"  *)
(* tags them as training rows, "off" ignores the switch, "cvfit" fits besides cross-validating.               *)
EXTENDS Pipeline, TLC, Json, FiniteSets
CONSTANTS FAULT, GENERATE
VARIABLES i, ph, calls, held, todo
vars == <<i, ph, calls, held, todo>>
B == BOOLEAN
Init == /\ \E ok \in B, cv \in B, ovr \in B, run \in B, m \in {"none", "model", "iso"}, t \in B, e \in B, d \in B, pt \in B, pe \in B :
              /\ (ovr => m # "iso") /\ ~(cv /\ ~t /\ (e \/ d)) /\ ((ovr /\ ~cv /\ d) => (t \/ e)) /\ (~t => pt) /\ (~e => pe)
              /\ i = [ok |-> ok, cv |-> cv, ovr |-> ovr, run |-> run, model |-> m, train |-> t, eval |-> e, data |-> d, any |-> t \/ e \/ d, ptrain |-> pt, peval |-> pe]
        /\ ph = "start" /\ calls = <<>> /\ held = {} /\ todo = <<>>
Configure == ph = "start" /\ ph' = (IF i.ok THEN "load" ELSE "end") /\ calls' = (IF i.ok THEN << <<"init", "">> >> ELSE <<>>) /\ UNCHANGED <<i, held, todo>>
Swap(q) == IF Len(q) >= 2 /\ q[1][1] \in {"fit", "one_vs_rest_fit"} THEN <<q[2], q[1]>> \o SubSeq(q, 3, Len(q)) ELSE q
Load == /\ ph = "load" /\ ph' = "work" /\ calls' = (IF Loads(i) /\ FAULT # "noload" THEN Append(calls, <<"load", "">>) ELSE calls)
        /\ todo' = LET q == Phases(IF FAULT = "off" THEN [i EXCEPT !.run = TRUE] ELSE i)
                   IN IF FAULT = "order" THEN Swap(q) ELSE IF FAULT = "cvfit" /\ i.cv /\ q # <<>> THEN q \o << <<"fit", "train">> >> ELSE q
        /\ UNCHANGED <<i, held>>
Rows(c) == IF ~Is(c, "predict") THEN {} ELSE IF c[2] = "train" THEN (IF i.ptrain THEN {<<"train", "train">>} ELSE {})
           ELSE IF ~i.peval \/ (FAULT = "lose" /\ i.train /\ ~i.ptrain) THEN {}
           ELSE {<<"eval", IF i.train /\ FAULT # "tag" THEN "validation" ELSE IF i.train THEN "train" ELSE "test">>}
Work == /\ ph = "work" /\ todo # <<>> /\ calls' = Append(calls, Head(todo)) /\ held' = held \cup Rows(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<i, ph>>
End == ph = "work" /\ todo = <<>> /\ ph' = "end" /\ UNCHANGED <<i, calls, held, todo>>
Next == IF GENERATE THEN ph = "start" /\ ph' = "end" /\ UNCHANGED <<i, calls, held, todo>> ELSE (Configure \/ Load \/ Work \/ End)
Spec == Init /\ [][Next]_vars
At(name) == {k \in 1..Len(calls) : Is(calls[k], name)}
Ended == ph = "end" /\ ~GENERATE
AsPlanned == Ended => calls = Plan(i)
HoldsAll == Ended => held = (IF i.ok THEN Tags(i) ELSE {})
\* consequences a user counts on
FitFirst == \A k \in At("predict") : calls[k][2] = "train" => \E j \in At("fit") : j < k
LoadFirst == Ended /\ i.ok /\ Loads(i) => Len(calls) >= 2 /\ calls[2][1] = "load"
OffMeansNothing == (Ended /\ ~i.run) => \A k \in 1..Len(calls) : calls[k][1] \in {"init", "load"}
CvAlone == (Ended /\ i.cv) => At("fit") = {} /\ At("predict") = {}
Emit == (GENERATE /\ ph = "end") => PrintT("BEHAVIOUR " \o ToJson(i))
=============================================================================
