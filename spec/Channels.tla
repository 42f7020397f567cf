------------------------------ MODULE Channels ------------------------------
(* The guest talks to hosts 1..n over one FIFO channel per direction. Messages are numbered.                *)
EXTENDS Integers, Sequences
CInit(n) == [n |-> n, g2h |-> [i \in 1..n |-> <<>>], h2g |-> [i \in 1..n |-> <<>>]]
ValidAddr(n, i) == i \in 0..(n - 1)           \* addresses count from zero; -1 means everybody
SendOne(s, i, m) == [s EXCEPT !.g2h[i + 1] = Append(@, m)]
SendAll(s, m) == [s EXCEPT !.g2h = [j \in 1..s.n |-> Append(s.g2h[j], m)]]
HostSend(s, i, m) == [s EXCEPT !.h2g[i + 1] = Append(@, m)]
HostTake(s, i) == [s EXCEPT !.g2h[i + 1] = Tail(@)]
GuestTake(s, i) == [s EXCEPT !.h2g[i + 1] = Tail(@)]
GuestTakeAll(s) == [s EXCEPT !.h2g = [j \in 1..s.n |-> Tail(s.h2g[j])]]
CanTakeAll(s) == \A j \in 1..s.n : s.h2g[j] # <<>>
Heads(s) == [j \in 1..s.n |-> Head(s.h2g[j])]
=============================================================================
