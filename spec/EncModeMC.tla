----------------------------- MODULE EncModeMC -----------------------------
(* The calculator with its memory of the previous call. FAULT: "stale" adds the difference to the first           *)
(* ciphertexts instead of the previous ones, "lost" keeps only rows present in both calls, "keep" forgets to      *)
(* remember the new data, "rate" re-encrypts when the draw exceeds the rate.                                      *)
EXTENDS EncMode, TLC, Json
CONSTANTS KEYS, VALS, CALLS, FAULT, GENERATE
VARIABLES mode, rate, form, prev, prevc, first0, input, out, n, hist, draw
vars == <<mode, rate, form, prev, prevc, first0, input, out, n, hist, draw>>
None == [k \in {} |-> 0]
NoC == [k \in {} |-> [v |-> 0, fresh |-> FALSE]]
Init == /\ mode = "pick" /\ rate = 0 /\ form = "scalar" /\ prev = None /\ prevc = NoC /\ first0 = NoC
        /\ input = None /\ out = NoC /\ n = 0 /\ hist = <<>> /\ draw = 0
Pick == /\ mode = "pick" /\ mode' \in {"strict", "fast", "balance"} /\ rate' \in {0, 300, 500, 950, 1000}
        /\ form' \in IF GENERATE THEN {"scalar", "tuple", "list", "array", "pair"} ELSE {"scalar"}
        /\ UNCHANGED <<prev, prevc, first0, input, out, n, hist, draw>>
Enc(v) == [v |-> v, fresh |-> TRUE]
Call(S, t, d) ==
    LET within == d <= rate
        fresh == MustFresh(mode, n = 0, IF FAULT = "rate" THEN d > rate ELSE within) \/ (FAULT # "lost" /\ \E k \in S : k \notin DOMAIN prev)
        R == IF fresh THEN S ELSE S \cap DOMAIN prev
        o == [k \in R |-> IF fresh THEN Enc(t[k])
                          ELSE LET b == IF FAULT = "stale" THEN first0[k] ELSE prevc[k] IN [v |-> b.v + t[k] - prev[k], fresh |-> FALSE]] IN
    /\ out' = o /\ input' = t /\ draw' = d
    /\ prev' = IF FAULT = "keep" /\ n > 0 THEN prev ELSE t
    /\ prevc' = o
    /\ first0' = IF n = 0 THEN o ELSE first0
    /\ n' = n + 1 /\ hist' = IF GENERATE THEN Append(hist, [t |-> [k \in S |-> <<k, t[k]>>], d |-> d]) ELSE hist
    /\ UNCHANGED <<mode, rate, form>>
\* row values are reused by the harness to fill rows of several numbers
Next == Pick \/ (mode # "pick" /\ n < CALLS /\
        IF GENERATE THEN \E S \in {LET x == RandomElement({KEYS, KEYS, RandomElement(SUBSET KEYS)}) IN IF x = {} THEN KEYS ELSE x} :
                         \E t \in {[k \in S |-> RandomElement(VALS)]} : \E d \in {RandomElement({0, 100, 299, 300, 301, 499, 500, 501, 700, 949, 951, 970, 999})} : Call(S, t, d)
        ELSE \E S \in (SUBSET KEYS) \ {{}} : \E t \in [S -> VALS] : \E d \in {0, 300, 301, 999} : Call(S, t, d))
Spec == Init /\ [][Next]_vars
Current == n > 0 => DOMAIN out = DOMAIN input /\ \A k \in DOMAIN input : out[k].v = input[k]
Fresh == n > 0 => \A k \in DOMAIN out : MustFresh(mode, n = 1, draw <= rate) => out[k].fresh
Emit == (GENERATE /\ n = CALLS) => PrintT("BEHAVIOUR " \o ToJson([mode |-> mode, rate |-> rate, form |-> form,
            calls |-> [i \in 1..n |-> [rows |-> {hist[i].t[k] : k \in DOMAIN hist[i].t}, d |-> hist[i].d]]]))
=============================================================================
