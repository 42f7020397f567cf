---------------------------- MODULE ProtocolTrace ----------------------------
(* Recorded sends and receives of a real training or prediction against Protocol. A message carries the kinds *)
(* its payload may stand for (an empty table fits several) and its size where it can be told (else 0 - 1).    *)
EXTENDS Protocol, TraceKit
TInitSt(t) == [p |-> t.p, g |-> Start(t.p.n, t.pc, t.trees), h |-> [i \in 1..t.p.n |-> Start(1, t.pc, t.trees)],
               chan |-> [c \in (1..t.p.n) \X {"down", "up"} |-> <<>>], over |-> FALSE]
Rng(q) == {q[i] : i \in 1..Len(q)}
Agrees(want, arg) == want < 0 \/ arg < 0 \/ want = arg
FirstOf(s) == s.g.todo = 1..s.p.n
\* the argument a freely chosen message announces; later hosts must be told the same
ArgOf(s, e) == e.arg
GSendOK(s, e) == s.g.pc \in GuestSends /\ e.peer \in s.g.todo /\ s.g.pc \in Rng(e.kinds)
GSizeOK(s, e) == IF IsFree(s.g) THEN IF FirstOf(s) THEN e.arg \in Free(s.p, s.g) ELSE e.arg = (IF s.g.pc = "queue" THEN s.g.q ELSE s.g.flag)
                 ELSE Agrees(Size(s.p, s.g), e.arg)
HCur(s, i) == s.h[i]
Fl(s, e) ==
    IF s.over THEN {"nothing happens after a step outside the protocol"} ELSE
    CASE e.op = "send" /\ e.me = 0 -> Bad("the guest sends only what the protocol asks for next", GSendOK(s, e))
                                  \cup Bad("a message has the agreed size", GSendOK(s, e) => GSizeOK(s, e))
      [] e.op = "send" -> LET x == s.h[e.me] IN
              Bad("a host sends only what the protocol asks for next", x.pc \in HostSends /\ x.pc \in Rng(e.kinds))
         \cup Bad("a message has the agreed size", Agrees(Size(s.p, x), e.arg))
         \cup Bad("an answer covers exactly the rows asked about", x.pc \in {"dres", "pres"} => Agrees(x.rows, e.arg))
      [] e.op = "recv" /\ e.me = 0 ->
              Bad("the guest reads a message only where the protocol expects that kind",
                  s.g.pc \in HostSends /\ e.peer \in s.g.todo /\ s.chan[<<e.peer, "up">>] # <<>> /\ Head(s.chan[<<e.peer, "up">>]) = s.g.pc)
      [] e.op = "recv" -> LET x == s.h[e.me] IN
              Bad("a host reads a message only where the protocol expects that kind",
                  x.pc \in GuestSends /\ s.chan[<<e.me, "down">>] # <<>> /\ Head(s.chan[<<e.me, "down">>]) = x.pc)
         \cup Bad("a message has the agreed size", Agrees(Size(s.p, x), e.arg))
      [] e.op = "finish" -> Bad("the run completes for every party", e.out = "ok")
                      \cup Bad("no message is left unread", e.out = "ok" => e.left = 0 /\ \A c \in DOMAIN s.chan : s.chan[c] = <<>>)
                      \cup Bad("guest and hosts reach the end of the protocol", e.out = "ok" => s.g.pc = "end" /\ \A i \in 1..s.p.n : s.h[i].pc = "end")
      [] e.op = "trees" -> Bad("guest and hosts keep the same number of trees", \A i \in 1..Len(e.k) : e.k[i] = s.g.trees)
St(s, e) ==
    CASE e.op = "send" /\ e.me = 0 -> LET kind == s.g.pc g1 == IF FirstOf(s) THEN Note(s.g, kind, e.arg) ELSE s.g IN
              [s EXCEPT !.g = GuestDid(s.p, g1, e.peer), !.chan[<<e.peer, "down">>] = Append(@, kind)]
      [] e.op = "send" -> [s EXCEPT !.h[e.me] = [After(s.p, @) EXCEPT !.todo = {1}], !.chan[<<e.me, "up">>] = Append(@, s.h[e.me].pc)]
      [] e.op = "recv" /\ e.me = 0 -> [s EXCEPT !.g = GuestDid(s.p, @, e.peer), !.chan[<<e.peer, "up">>] = Tail(@)]
      [] e.op = "recv" -> [s EXCEPT !.h[e.me] = [After(s.p, Note(@, @.pc, e.arg)) EXCEPT !.todo = {1}], !.chan[<<e.me, "down">>] = Tail(@)]
      [] OTHER -> s
Fin(s) == {}
=============================================================================
