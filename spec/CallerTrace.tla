---------------------------- MODULE CallerTrace ----------------------------
(* s.view: for every table of the caller what it holds, as recorded before the first call.                           *)
EXTENDS Integers, Sequences, TraceKit
TInitSt(t) == [view |-> t.view, res |-> <<>>]
Same(a, b) == a = b
Fl(s, e) ==
    CASE e.op = "call" ->
            Bad("a call on the caller's tables succeeds", e.out = "ok")
       \cup UNION {LET a == e.view[i] b == s.view[i] IN
                   Bad("a table keeps its keys", a.keys = b.keys)
              \cup Bad("samples keep their feature vectors", a.feats = b.feats)
              \cup Bad("samples keep labels, numbers and weights", a.meta = b.meta)
              \cup Bad("a table keeps its schema", a.schema = b.schema)
              \cup Bad("a table keeps its sample objects", a.same = b.same) : i \in 1..Len(s.view)}
      [] e.op = "again" -> Bad("a call on a used table gives what it gives on a fresh copy", e.got = e.want)
St(s, e) == s
Fin(s) == {}
=============================================================================
