----------------------------- MODULE FramingTrace -----------------------------
EXTENDS Framing, TraceKit
TInitSt(t) == FInit
TFails(s, e) ==
    CASE e.op = "send" -> Bad("sending completes and writes the frame", e.out = "ok" /\ e.n > 0)
      [] e.op = "close" -> {}
      [] e.op = "read" -> Bad("network model: piece within the stream", e.n >= 0 /\ s.pos + e.n <= Avail(s))
      [] e.op = "recv" ->
            IF e.out = "ok"
            THEN Bad("a message is delivered only if it arrived completely", CanDeliver(s))
                 \cup Bad("messages are delivered in order, unchanged, exactly once", e.i = s.delivered + 1)
                 \cup Bad("delivery consumes exactly the frame", e.rd = 1 /\ CanDeliver(s) => s.pos = NextEnd(s))
            ELSE IF e.out = "hang" THEN {"receiver never waits for ever on a closed connection"}
            ELSE Bad("receiving fails only when the stream ended early", MustFail(s))
TFinal(s) == Bad("every complete message was delivered", s.failed \/ ~CanDeliver(s))
=============================================================================
