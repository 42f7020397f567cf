----------------------------- MODULE FilesTrace -----------------------------
EXTENDS Files, TraceKit
TInitSt(t) == [first |-> <<>>]
Fl(s, e) ==
    CASE e.op = "read" ->
            IF e.out # "ok" THEN {"a well-formed file is read"} ELSE
            Bad("one entry per data row", Len(e.ids) = Len(e.rows) /\ Len(e.feats) = Len(e.rows) /\ (e.lab = 1 => Len(e.labels) = Len(e.rows)))
       \cup Bad("identifiers as written, in file order", e.ids = Ids(e.rows))
       \cup Bad("labels as written, in file order", e.lab = 1 => e.labels = Labels(e.rows))
       \cup Bad("features are the numbers written", e.feats = e.nums)
       \cup Bad("the header names the feature columns", e.header = Header(e.head, e.lab = 1))
      [] e.op = "split" ->
            IF e.out # "ok" THEN {"splitting succeeds"} ELSE
            Bad("every sample is in exactly one part", Len(e.a) + Len(e.b) = e.n /\ SetOf(e.a) \cup SetOf(e.b) = 1..e.n)
       \cup Bad("the training part holds the rounded-down share", Len(e.a) = Share(e.n, e.num, e.den) \/ (e.den % 5 = 0 /\ (e.n * e.num) % e.den = 0 /\ Len(e.a) = Share(e.n, e.num, e.den) - 1 /\ e.exact = Len(e.a)))
       \cup Bad("the order is kept without shuffling", e.shuffle = 0 => e.a \o e.b = [i \in 1..e.n |-> i])
       \cup Bad("parties put the same rows in the same positions", s.first # <<>> => <<e.a, e.b>> = s.first[1])
      [] e.op = "entry" ->
            IF e.out # "ok" THEN {"the entry point runs"} ELSE
            Bad("training and test tables hold every row once", Len(e.a) + Len(e.b) = e.n /\ SetOf(e.a) \cup SetOf(e.b) = 1..e.n)
       \cup Bad("tables number the rows in order", e.keysok = 1)
       \cup Bad("samples hold the identifiers, labels and numbers of their row", e.cells = 1)
       \cup Bad("tables carry the header of the feature columns", e.header = 1)
       \cup Bad("parties put the same rows in the same positions", s.first # <<>> => <<e.a, e.b>> = s.first[1])
      [] e.op = "program" ->
            Bad("the guest and host programs run together to the end", e.out = "ok" /\ e.hosts = e.n)
       \cup Bad("the guest reports the share of test samples predicted right, once",
               e.out = "ok" => Len(e.shown) = 1 /\ e.shown[1] * e.total - e.right * 1000000 \in (0 - e.total)..e.total)
St(s, e) == IF e.op \in {"split", "entry"} /\ s.first = <<>> /\ e.out = "ok" THEN [s EXCEPT !.first = <<<<e.a, e.b>>>>] ELSE s
Fin(s) == {}
=============================================================================
