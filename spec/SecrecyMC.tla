------------------------------ MODULE SecrecyMC ------------------------------
(* Rounds of one-tree boosting with hosts 1..N as term exchanges. Every send is a step; LEAK selects a faulty  *)
(* implementation. Guest secrets of round j: gradients g, node statistics s, weights w, gains q, thresholds t. *)
EXTENDS Secrecy, TLC
CONSTANTS N, ROUNDS, NODES, LEAK
VARIABLES pc, round, node, i, fresh, hk, gk, back
vars == <<pc, round, node, i, fresh, hk, gk, back>>
V(a, b) == <<a, round, b>>
GuestSecrets == ({"g", "h", "sum", "w", "gain"} \X (1..ROUNDS) \X (0..NODES)) \cup {<<"label", 0, 0>>, <<"gthr", 0, 0>>, <<"key", 0, 0>>}
HostSecrets == {<<"hthr", 0, j>> : j \in 1..N} \cup {<<"hval", 0, j>> : j \in 1..N}
Init == pc = "enc" /\ round = 1 /\ node = 0 /\ i = 1 /\ fresh = 1 /\ back = {}
        /\ hk = [j \in 1..N |-> {}] /\ gk = {}
Rand == IF LEAK = "norandom" THEN 0 ELSE IF LEAK = "reuse" THEN 1 ELSE fresh
\* every host colludes with every other one: they are told the same
Tell(j, ts) == hk' = [hk EXCEPT ![j] = @ \cup ts]
Adv(nextpc) == IF i < N THEN i' = i + 1 /\ UNCHANGED <<pc, node, round>> ELSE i' = 1 /\ nextpc
SendEnc == pc = "enc"
    /\ Tell(i, IF i = 1 THEN {Enc(V("g", 0), Rand), Enc(V("h", 0), IF LEAK = "reuse" THEN 1 ELSE IF LEAK = "norandom" THEN 0 ELSE fresh + 1)}
                         \cup (IF LEAK = "key" THEN {Key} ELSE {}) ELSE hk[1])
    /\ fresh' = fresh + 2 /\ Adv(pc' = "queue" /\ UNCHANGED <<node, round>>) /\ UNCHANGED <<gk, back>>
SendQueue == pc = "queue"
    /\ Tell(i, {Pub("nodeid")} \cup (IF LEAK = "queue" THEN {Plain(V("sum", node))} ELSE {}))
    /\ Adv(pc' = "cand" /\ UNCHANGED <<node, round>>) /\ UNCHANGED <<fresh, gk, back>>
\* a host answers with sums of ciphertexts: their randomness is that of the summands, opaque to anyone else
SendCand == pc = "cand"
    /\ gk' = gk \cup {Enc(V("sum", node), 0 - i)} \cup (IF LEAK = "hostval" THEN {Plain(<<"hval", 0, i>>)} ELSE {})
    /\ Adv(pc' = "best" /\ UNCHANGED <<node, round>>) /\ UNCHANGED <<fresh, hk, back>>
SendBest == pc = "best"
    /\ Tell(i, {Pub("index"), IF LEAK = "gain" THEN Plain(V("gain", node)) ELSE Enc(V("gain", node), Rand)})
    /\ fresh' = fresh + 1 /\ Adv(pc' = "final" /\ UNCHANGED <<node, round>>) /\ UNCHANGED <<gk, back>>
SendFinal == pc = "final"
    /\ gk' = gk \cup {Pub("fid")} \cup (IF LEAK = "bid" THEN {Plain(<<"hthr", 0, i>>)} ELSE {})
    /\ Adv(IF node < NODES THEN pc' = "queue" /\ node' = node + 1 /\ UNCHANGED round
           ELSE pc' = "tree" /\ UNCHANGED <<node, round>>) /\ UNCHANGED <<fresh, hk, back>>
SendTree == pc = "tree"
    /\ Tell(i, {Pub("structure")} \cup (IF LEAK = "tree" THEN {Plain(V("w", x)) : x \in 0..NODES} ELSE {})
                    \cup (IF LEAK = "thr" THEN {Plain(<<"gthr", 0, 0>>)} ELSE {}))
    /\ Adv(IF round < ROUNDS THEN pc' = "enc" /\ round' = round + 1 /\ node' = 0 ELSE pc' = "predict" /\ UNCHANGED <<round, node>>)
    /\ UNCHANGED <<fresh, gk, back>>
SendPredict == pc = "predict"
    /\ Tell(i, {Pub("position")} \cup (IF LEAK = "label" THEN {Plain(<<"label", 0, 0>>)} ELSE {}))
    /\ Adv(pc' = "end" /\ UNCHANGED <<node, round>>) /\ UNCHANGED <<fresh, gk, back>>
Next == SendEnc \/ SendQueue \/ SendCand \/ SendBest \/ SendFinal \/ SendTree \/ SendPredict \/ (pc = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
AllHosts == UNION {hk[j] : j \in 1..N}
HostsBlind == Learns(AllHosts, FALSE) \cap GuestSecrets = {}
GuestBlind == Learns(gk, TRUE) \cap HostSecrets = {}
=============================================================================
