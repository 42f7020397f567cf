------------------------------ MODULE FramingMC ------------------------------
(* The receiver as a byte-level state machine under every segmentation and every close point.              *)
(* SHORT and NOEOF are the two faulty receivers the repository shipped with: a header accepted after one    *)
(* (possibly short) read, and a closed connection polled for ever.                                          *)
EXTENDS Framing, TLC, Json
CONSTANTS HDR, BODY, MAXMSG, SHORT, NOEOF, GENERATE
VARIABLES sizes,     \* bodies of the messages the sender will send
          written,   \* bytes written so far (header and body are two writes)
          pos, phase, acc, delivered, cut, failed, hist
vars == <<sizes, written, pos, phase, acc, delivered, cut, failed, hist>>
Frames == [i \in 1..Len(sizes) |-> HDR + sizes[i]]
Total == EndOf(Frames, Len(sizes))
WriteEnds == {EndOf(Frames, i) : i \in 0..Len(sizes)} \cup {EndOf(Frames, i) + HDR : i \in 0..(Len(sizes) - 1)}
Init == /\ sizes \in UNION {[1..n -> BODY] : n \in 1..MAXMSG}
        /\ written = 0 /\ pos = 0 /\ phase = "hdr" /\ acc = 0 /\ delivered = 0
        /\ cut = 0 - 1 /\ failed = FALSE /\ hist = <<>>
Need == IF phase = "hdr" THEN HDR ELSE sizes[delivered + 1]
Write == /\ cut < 0 /\ written < Total
         /\ written' \in {w \in WriteEnds : w > written /\ \A v \in WriteEnds : v > written => w <= v}
         /\ UNCHANGED <<sizes, pos, phase, acc, delivered, cut, failed, hist>>
Close == /\ cut < 0 /\ cut' = written
         /\ UNCHANGED <<sizes, written, pos, phase, acc, delivered, failed, hist>>
CloseMid == /\ cut < 0 /\ cut' \in (pos + 1)..(written - 1)       \* bytes lost at the close
            /\ UNCHANGED <<sizes, written, pos, phase, acc, delivered, failed, hist>>
Lim == IF cut >= 0 THEN cut ELSE written
Idle == delivered < Len(sizes) /\ ~failed
Min(a, b) == IF a < b THEN a ELSE b
Seg == /\ Idle /\ pos < Lim
       /\ \E k \in 1..Min(Need - acc, Lim - pos) :
            /\ pos' = pos + k /\ hist' = (IF GENERATE THEN Append(hist, pos + k) ELSE hist)
            /\ IF acc + k = Need \/ (SHORT /\ phase = "hdr")
               THEN IF phase = "hdr" THEN phase' = "body" /\ acc' = 0 /\ UNCHANGED delivered
                    ELSE phase' = "hdr" /\ acc' = 0 /\ delivered' = delivered + 1
               ELSE acc' = acc + k /\ UNCHANGED <<phase, delivered>>
       /\ UNCHANGED <<sizes, written, cut, failed>>
Eof == /\ Idle /\ cut >= 0 /\ pos = cut /\ ~NOEOF
       /\ failed' = TRUE /\ UNCHANGED <<sizes, written, pos, phase, acc, delivered, cut, hist>>
Next == Write \/ Close \/ CloseMid \/ Seg \/ Eof
Spec == Init /\ [][Next]_vars /\ WF_vars(Write) /\ WF_vars(Seg) /\ WF_vars(Eof)
\* each delivery happens exactly when the whole frame, and nothing beyond it, has been consumed
Framed == phase = "hdr" /\ acc = 0 /\ ~SHORT => pos = EndOf(Frames, delivered)
FramedAny == phase = "hdr" /\ acc = 0 => pos = EndOf(Frames, delivered)
NoFalseFailure == failed => cut >= 0 /\ cut < EndOf(Frames, delivered + 1)
Terminates == <>(failed \/ delivered = Len(sizes))
Emit == (GENERATE /\ (failed \/ delivered = Len(sizes))) =>
          PrintT("BEHAVIOUR " \o ToJson([sizes |-> sizes, cuts |-> hist, close |-> cut]))
=============================================================================
