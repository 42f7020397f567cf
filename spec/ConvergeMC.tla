----------------------------- MODULE ConvergeMC -----------------------------
(* Two criterion objects fed in any interleaving, each remembering one value. FAULT: "sticky" does not remember a *)
(* value that converged, "shared" keeps one memory for both objects, "le" uses <=.                                *)
EXTENDS Converge, TLC, FiniteSets, Json
CONSTANTS VALS, EPS, STEPS, FAULT, GENERATE
VARIABLES mem, h, flag, last, script, eps
vars == <<mem, h, flag, last, script, eps>>
Objs == 1..2
NoV == 0 - 99999
Init == mem = [o \in Objs |-> NoV] /\ h = [o \in Objs |-> <<>>] /\ flag = FALSE /\ last = 0 /\ script = <<>> /\ eps = 0 - 1
Slot(o) == IF FAULT = "shared" THEN 1 ELSE o
Pick == eps = 0 - 1 /\ eps' \in EPS /\ UNCHANGED <<mem, h, flag, last, script>>
Feed(o, v) ==
    LET c == mem[Slot(o)] # NoV /\ (IF FAULT = "le" THEN Abs(mem[Slot(o)] - v) <= eps ELSE Abs(mem[Slot(o)] - v) < eps) IN
    /\ flag' = c /\ last' = o /\ h' = [h EXCEPT ![o] = Append(@, v)]
    /\ mem' = IF c /\ FAULT = "sticky" THEN mem ELSE [mem EXCEPT ![Slot(o)] = v]
    /\ script' = IF GENERATE THEN Append(script, [o |-> o, v |-> v]) ELSE script
    /\ UNCHANGED eps
Next == Pick \/ (eps # 0 - 1 /\ Len(h[1]) + Len(h[2]) < STEPS /\
                 IF GENERATE THEN \E o \in {RandomElement(Objs)}, v \in {RandomElement(VALS)} : Feed(o, v) ELSE \E o \in Objs, v \in VALS : Feed(o, v))
Spec == Init /\ [][Next]_vars
LastTwo == last # 0 => flag = Diff(h[last], eps)
Emit == (GENERATE /\ Len(script) = STEPS) => PrintT("BEHAVIOUR " \o ToJson([eps |-> eps, script |-> script]))
=============================================================================
