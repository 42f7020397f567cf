------------------------------ MODULE BoostMC ------------------------------
(* The boosting loop of a guest and its hosts, step by step, for every choice of leaf weights and losses.            *)
EXTENDS Boost, TLC
CONSTANTS N, DIM, ROUNDS, W, HOSTS, STOP, FAULT
VARIABLES ph, rnd, dim, F, sums, atg, losses, gtrees, htrees, flag, start
vars == <<ph, rnd, dim, F, sums, atg, losses, gtrees, htrees, flag, start>>
Zero == [i \in 1..N |-> [d \in 1..DIM |-> 0]]
Init == /\ ph = "grad" /\ rnd = 1 /\ dim = 1 /\ F = Zero /\ sums = Zero /\ atg = Zero /\ losses = <<>> /\ gtrees = 0 /\ htrees = [h \in 1..HOSTS |-> 0]
        /\ flag = FALSE /\ start = Zero
Grad == /\ ph = "grad" /\ atg' = F /\ start' = sums /\ ph' = "tree" /\ dim' = 1 /\ UNCHANGED <<rnd, F, sums, losses, gtrees, htrees, flag>>
Grow == /\ ph = "tree"
        /\ \E w \in [1..N -> W] :
             /\ sums' = [i \in 1..N |-> [sums[i] EXCEPT ![dim] = @ + w[i]]]
             /\ F' = IF FAULT = "skip" /\ rnd = ROUNDS THEN F
                     ELSE [i \in 1..N |-> [F[i] EXCEPT ![IF FAULT = "dim" THEN 1 ELSE dim] = @ + w[i]]]
             /\ atg' = IF FAULT = "refresh" THEN F' ELSE atg
        /\ gtrees' = gtrees + 1 /\ htrees' = [h \in 1..HOSTS |-> htrees[h] + 1]
        /\ IF dim < DIM THEN dim' = dim + 1 /\ UNCHANGED ph ELSE dim' = dim /\ ph' = "loss"
        /\ UNCHANGED <<rnd, losses, flag, start>>
Loss == /\ ph = "loss" /\ \E l \in {0, 1, 5} : losses' = Append(losses, l)
        /\ flag' = (STOP /\ Len(losses') >= 2 /\ AbsV(losses'[Len(losses')] - losses'[Len(losses') - 1]) < 2)
        /\ IF flag' /\ ~(FAULT = "late" /\ ~flag) THEN ph' = "end" /\ UNCHANGED rnd
           ELSE IF rnd = ROUNDS THEN ph' = "end" /\ UNCHANGED rnd ELSE ph' = "grad" /\ rnd' = rnd + 1
        /\ UNCHANGED <<dim, F, sums, atg, gtrees, htrees, start>>
Next == Grad \/ Grow \/ Loss
Spec == Init /\ [][Next]_vars
Scores == ph # "tree" => F = sums
AtStart == ph = "tree" => atg = start
Counts == ph = "end" => /\ gtrees = DIM * Len(losses)
                        /\ \A h \in 1..HOSTS : htrees[h] = gtrees
                        /\ Len(losses) = IF STOP THEN StopAt(losses, 1, 2, ROUNDS) ELSE ROUNDS
=============================================================================
