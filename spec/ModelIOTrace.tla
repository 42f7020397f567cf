---------------------------- MODULE ModelIOTrace ----------------------------
(* s.t: nodes, thresholds and settings of the fitted tree object of one party; everything exact (as text).           *)
EXTENDS Integers, Sequences, FiniteSets, TraceKit
TInitSt(t) == [live |-> <<>>, msg |-> <<>>]
Cmp(a, b, what) ==
       Bad("the same nodes in " \o what, Len(a.nodes) = Len(b.nodes) /\ \A i \in 1..Len(a.nodes) : i <= Len(b.nodes) => a.nodes[i].id = b.nodes[i].id)
  \cup (IF Len(a.nodes) # Len(b.nodes) THEN {} ELSE
        Bad("owner and feature of nodes in " \o what, \A i \in 1..Len(a.nodes) : a.nodes[i].site = b.nodes[i].site /\ a.nodes[i].fid = b.nodes[i].fid /\ a.nodes[i].bid = b.nodes[i].bid)
   \cup Bad("children and leaf flags in " \o what, \A i \in 1..Len(a.nodes) : a.nodes[i].leaf = b.nodes[i].leaf /\ a.nodes[i].l = b.nodes[i].l /\ a.nodes[i].r = b.nodes[i].r)
   \cup Bad("leaf weights in " \o what, \A i \in 1..Len(a.nodes) : a.nodes[i].w = b.nodes[i].w))
  \cup Bad("thresholds in " \o what, a.mask = b.mask)
  \cup Bad("settings in " \o what, a.set = b.set)
Fl(s, e) ==
    CASE e.op = "live" -> Bad("training ends normally", e.out = "ok")
      [] e.op = "saved" -> IF e.out # "ok" THEN {"saving succeeds"} ELSE Cmp(s.live, e, "the saved model")
      [] e.op = "loaded" -> IF e.out # "ok" THEN {"loading succeeds"} ELSE Cmp(s.live, e, "the loaded tree")
      [] e.op = "resaved" -> IF e.out # "ok" THEN {"saving again succeeds"} ELSE Cmp(s.msg, e, "the model saved again")
      [] e.op = "pred" -> Bad("reloaded trees predict exactly as the original ones", e.out = "ok" /\ e.got = e.want)
St(s, e) == CASE e.op = "live" -> [s EXCEPT !.live = e] [] e.op = "saved" -> [s EXCEPT !.msg = e] [] OTHER -> s
Fin(s) == {}
=============================================================================
