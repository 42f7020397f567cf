----------------------------- MODULE CrashTrace -----------------------------
(* A call with valid inputs which no other event stands for raised an exception: never a step of the system.    *)
EXTENDS TraceKit
TInitSt(t) == [x |-> 0]
Fl(s, e) == {"the code completes every operation on valid inputs"}
St(s, e) == s
Fin(s) == {}
=============================================================================
