----------------------------- MODULE ChannelsMC -----------------------------
(* Every history of sends and receives up to a bound, with ghost logs of what was addressed to and obtained *)
(* by whom. DROPLAST and SWAP are faulty variants of broadcast and collect.                                *)
EXTENDS Channels, TLC, Json, FiniteSets
CONSTANTS NS, MAXMSG, MAXLEN, DROPLAST, SWAP, GENERATE
VARIABLES s, next, addressed, got, sentUp, gotUp, hist
vars == <<s, next, addressed, got, sentUp, gotUp, hist>>
Init == \E n \in NS :
    /\ s = CInit(n) /\ next = 1 /\ hist = <<>>
    /\ addressed = [i \in 1..n |-> <<>>] /\ got = [i \in 1..n |-> <<>>]
    /\ sentUp = [i \in 1..n |-> <<>>] /\ gotUp = [i \in 1..n |-> <<>>]
Rec(e) == hist' = IF GENERATE THEN Append(hist, e) ELSE <<>>
More == next <= MAXMSG /\ Len(hist) < MAXLEN
To(i) == /\ More /\ s' = SendOne(s, i, next) /\ next' = next + 1
         /\ addressed' = [addressed EXCEPT ![i + 1] = Append(@, next)]
         /\ Rec([op |-> "to", i |-> i, m |-> next]) /\ UNCHANGED <<got, sentUp, gotUp>>
All == /\ More /\ next' = next + 1
       /\ s' = [SendAll(s, next) EXCEPT !.g2h[s.n] = IF DROPLAST /\ s.n > 1 THEN s.g2h[s.n] ELSE @]
       /\ addressed' = [j \in 1..s.n |-> Append(addressed[j], next)]
       /\ Rec([op |-> "all", i |-> 0 - 1, m |-> next]) /\ UNCHANGED <<got, sentUp, gotUp>>
Refused(i) == /\ More /\ GENERATE /\ Rec([op |-> "refuse", i |-> i, m |-> next]) /\ next' = next + 1
              /\ UNCHANGED <<s, addressed, got, sentUp, gotUp>>
HSend(i) == /\ More /\ s' = HostSend(s, i, next) /\ next' = next + 1
            /\ sentUp' = [sentUp EXCEPT ![i + 1] = Append(@, next)]
            /\ Rec([op |-> "hsend", i |-> i, m |-> next]) /\ UNCHANGED <<addressed, got, gotUp>>
HRecv(i) == /\ s.g2h[i + 1] # <<>> /\ s' = HostTake(s, i)
            /\ got' = [got EXCEPT ![i + 1] = Append(@, Head(s.g2h[i + 1]))]
            /\ Rec([op |-> "hrecv", i |-> i, m |-> 0]) /\ UNCHANGED <<next, addressed, sentUp, gotUp>>
GRecv(i) == /\ s.h2g[i + 1] # <<>> /\ s' = GuestTake(s, i)
            /\ gotUp' = [gotUp EXCEPT ![i + 1] = Append(@, Head(s.h2g[i + 1]))]
            /\ Rec([op |-> "from", i |-> i, m |-> 0]) /\ UNCHANGED <<next, addressed, got, sentUp>>
GRecvAll == /\ CanTakeAll(s) /\ s' = GuestTakeAll(s)
            /\ gotUp' = [j \in 1..s.n |-> Append(gotUp[j], Heads(s)[IF SWAP THEN s.n + 1 - j ELSE j])]
            /\ Rec([op |-> "collect", i |-> 0 - 1, m |-> 0]) /\ UNCHANGED <<next, addressed, got, sentUp>>
Next == \/ All \/ GRecvAll
        \/ \E i \in 0..(s.n - 1) : To(i) \/ HSend(i) \/ HRecv(i) \/ GRecv(i)
        \/ \E i \in {0 - 5, 0 - 3, 0 - 2, s.n, s.n + 1, s.n + 7} : Refused(i)
Spec == Init /\ [][Next]_vars
\* exactly once, to the addressee only, in sending order, and attributed to the right sender
Delivered == \A i \in 1..s.n : got[i] \o s.g2h[i] = addressed[i] /\ gotUp[i] \o s.h2g[i] = sentUp[i]
Idle == \A i \in 1..s.n : s.g2h[i] = <<>> /\ s.h2g[i] = <<>>
Emit == (GENERATE /\ ~More /\ Idle) => PrintT("BEHAVIOUR " \o ToJson([n |-> s.n, ops |-> hist]))
=============================================================================
