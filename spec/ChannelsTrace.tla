---------------------------- MODULE ChannelsTrace ----------------------------
EXTENDS Channels, TraceKit
TInitSt(t) == CInit(t.n)
TFails(s, e) ==
    CASE e.op \in {"to", "all", "hsend"} -> Bad("sending to a valid address succeeds", e.out = "ok")
      [] e.op = "refuse" -> Bad("an address of no connected host is refused", ~ValidAddr(s.n, e.i) => e.out \notin {"ok", "hang"})
      [] e.op = "hrecv" ->
            IF e.out = "hang" THEN {"what is addressed to a host reaches it"}
            ELSE Bad("a host receives exactly its messages in sending order",
                     e.out = "ok" /\ s.g2h[e.i + 1] # <<>> /\ Head(s.g2h[e.i + 1]) = e.m[1])
      [] e.op = "from" ->
            IF e.out = "hang" THEN {"what a host sends reaches the guest"}
            ELSE Bad("collecting from one host takes its next message",
                     e.out = "ok" /\ s.h2g[e.i + 1] # <<>> /\ Head(s.h2g[e.i + 1]) = e.m[1])
      [] e.op = "collect" ->
            IF e.out = "hang" THEN {"what a host sends reaches the guest"}
            ELSE Bad("collecting from everybody returns one message per host in host order",
                     e.out = "ok" /\ CanTakeAll(s) /\ Heads(s) = e.m)
      [] e.op = "connect" -> Bad("all hosts connect", e.out = "ok")
TStep(s, e) ==
    CASE e.op = "to" -> SendOne(s, e.i, e.m[1])
      [] e.op = "all" -> SendAll(s, e.m[1])
      [] e.op = "hsend" -> HostSend(s, e.i, e.m[1])
      [] e.op = "hrecv" -> HostTake(s, e.i)
      [] e.op = "from" -> GuestTake(s, e.i)
      [] e.op = "collect" -> GuestTakeAll(s)
      [] OTHER -> s
TFinal(s) == Bad("nothing is left over", \A i \in 1..s.n : s.g2h[i] = <<>> /\ s.h2g[i] = <<>>)
=============================================================================
