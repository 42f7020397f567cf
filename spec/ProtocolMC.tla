----------------------------- MODULE ProtocolMC -----------------------------
(* All interleavings of the guest's and the hosts' programs over FIFO channels, for every tree shape, number  *)
(* of batches, round count and early-stopping decision within the bounds; training is followed by prediction. *)
(* FAULT selects a broken program: the host does not stop at an empty queue, the host batches differently,    *)
(* the guest announces only positive stop flags, a host without nodes to dispatch does not reply.             *)
EXTENDS Protocol, TLC, Json
CONSTANTS N, DEPTH, DIM, ROUNDS, BATCH, STOP, LOOPS, FAULT, GENERATE
VARIABLES g, h, down, up, phase, bad, hist, loops
vars == <<g, h, down, up, phase, bad, hist, loops>>
p == [n |-> N, depth |-> DEPTH, dim |-> DIM, rounds |-> ROUNDS, batch |-> BATCH, stop |-> STOP]
hp == IF FAULT = "hostbatch" THEN [p EXCEPT !.batch = @ + 1] ELSE p
Hosts == 1..N
Init == /\ g = Start(N, "dim", 0) /\ h = [i \in Hosts |-> Start(1, "dim", 0)]
        /\ down = [i \in Hosts |-> <<>>] /\ up = [i \in Hosts |-> <<>>]
        /\ phase = "train" /\ bad = {} /\ hist = <<>> /\ loops = 0
Rec(who) == hist' = IF GENERATE THEN Append(hist, who) ELSE <<>>
Silent(s) == FAULT = "stoponly" /\ s.pc = "stop" /\ s.flag = 0
HostAfter(s) == IF FAULT = "nobreak" /\ s.pc = "queue" /\ s.q = 0 THEN Go(s, "pos")
                ELSE [After(hp, s) EXCEPT !.todo = {1}]
\* the guest's next send to host i
GuestSend(i) ==
    /\ g.pc \in GuestSends /\ i \in g.todo
    /\ \E a \in (IF ~IsFree(g) THEN {Size(p, g)} ELSE IF g.todo # 1..N THEN {IF g.pc = "queue" THEN g.q ELSE g.flag} ELSE Free(p, g)) :
         /\ (g.pc = "fin" /\ a = 0 /\ g.todo = 1..N) => loops < LOOPS
         /\ LET g1 == IF g.todo = 1..N THEN Note(g, g.pc, a) ELSE g IN
            /\ g' = GuestDid(p, g1, i)
            /\ down' = IF Silent(g1) THEN down ELSE [down EXCEPT ![i] = Append(@, [kind |-> g.pc, arg |-> a])]
            /\ loops' = IF g.pc = "fin" /\ g.todo = 1..N THEN IF a = 0 THEN loops + 1 ELSE 0 ELSE loops
    /\ Rec(0) /\ UNCHANGED <<h, up, phase, bad>>
GuestRecv(i) ==
    /\ g.pc \in HostSends /\ i \in g.todo /\ up[i] # <<>>
    /\ bad' = bad \cup (IF Head(up[i]).kind # g.pc THEN {"kind"} ELSE {})
                  \cup (IF Size(p, g) >= 0 /\ Head(up[i]).arg # Size(p, g) THEN {"size"} ELSE {})
    /\ g' = GuestDid(p, g, i) /\ up' = [up EXCEPT ![i] = Tail(@)]
    /\ Rec(0) /\ UNCHANGED <<h, down, phase, loops>>
HostRecv(i) ==
    LET s == h[i] IN
    /\ s.pc \in GuestSends /\ down[i] # <<>>
    /\ LET m == Head(down[i]) IN
       /\ bad' = bad \cup (IF m.kind # s.pc THEN {"kind"} ELSE {})
                     \cup (IF s.pc = "best" /\ m.arg # Cur(hp, s) THEN {"size"} ELSE {})
                     \cup (IF s.pc = "tree" /\ m.arg # s.tot THEN {"size"} ELSE {})
       /\ h' = [h EXCEPT ![i] = HostAfter(IF m.kind = s.pc THEN Note(s, m.kind, m.arg) ELSE s)]
    /\ down' = [down EXCEPT ![i] = Tail(@)]
    /\ Rec(i) /\ UNCHANGED <<g, up, phase, loops>>
HostSend(i) ==
    LET s == h[i] IN
    /\ s.pc \in HostSends
    /\ up' = IF FAULT = "quiet" /\ s.pc = "dres" /\ i = N THEN up
             ELSE [up EXCEPT ![i] = Append(@, [kind |-> s.pc, arg |-> IF s.pc \in {"cand", "final"} THEN Cur(hp, s) ELSE 0 - 1])]
    /\ h' = [h EXCEPT ![i] = HostAfter(s)]
    /\ Rec(i) /\ UNCHANGED <<g, down, phase, bad, loops>>
AllEnd == g.pc = "end" /\ \A i \in Hosts : h[i].pc = "end"
Predict == /\ phase = "train" /\ AllEnd /\ phase' = "predict"
           /\ g' = Start(N, "fin", g.trees) /\ h' = [i \in Hosts |-> Start(1, "fin", h[i].trees)]
           /\ UNCHANGED <<down, up, bad, hist, loops>>
Done == phase = "predict" /\ AllEnd
Finished == Done /\ UNCHANGED vars
Next == Predict \/ Finished \/ \E i \in Hosts : GuestSend(i) \/ GuestRecv(i) \/ HostRecv(i) \/ HostSend(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
LockStep == bad = {}
NoLeftover == Done => \A i \in Hosts : down[i] = <<>> /\ up[i] = <<>>
SameTrees == AllEnd => \A i \in Hosts : h[i].trees = g.trees
\* every behaviour is finite: rank bounds are implied by the bounded shapes, so reaching Done is the only end
Completes == <>Done
Emit == (GENERATE /\ Done) => PrintT("BEHAVIOUR " \o ToJson([n |-> N, sched |-> hist]))
=============================================================================
