------------------------------ MODULE DrawTrace ------------------------------
(* Recorded draws and the splits made with them.                                                               *)
EXTENDS Draw, TraceKit
TInitSt(t) == [mask |-> <<>>, ever |-> <<>>, num |-> t.num, den |-> t.den, cover |-> t.cover, dim |-> IF "dim" \in DOMAIN t THEN t.dim ELSE 1]
On(m) == {f \in 1..Len(m) : m[f] = 1}
Key(e) == <<e.tree, e.party>>
MaskAt(s, k) == {i \in 1..Len(s.mask) : s.mask[i][1] = k}
TFails(s, e) ==
    CASE e.op = "run" -> Bad("training completes", e.out = "ok")
      [] e.op = "draw" ->
              Bad("a mask covers exactly the party's features", Len(e.mask) = e.n)
         \cup Bad("the configured share of the features is drawn, rounded down but at least one", Cardinality(On(e.mask)) = Share(e.n, s.num, s.den))
         \cup Bad("one draw per tree and party", MaskAt(s, Key(e)) = {})
      [] e.op = "split" -> Bad("a split uses a feature its owner drew for this tree", \E i \in MaskAt(s, Key(e)) : e.fid + 1 \in On(s.mask[i][2]))
      [] e.op = "trees" -> Bad("every party draws for every tree", \A p \in 0..(e.parties - 1) : \A t \in 1..e.n : MaskAt(s, <<t, p>>) # {})
TStep(s, e) == IF e.op = "draw" THEN [s EXCEPT !.mask = Append(@, <<Key(e), e.mask, e.party, e.n>>)] ELSE s
Parties(s) == {s.mask[i][3] : i \in 1..Len(s.mask)}
Of(s, p) == {i \in 1..Len(s.mask) : s.mask[i][3] = p}
\* neither do all outputs of every round share one mask nor do all rounds repeat the first one
MaskOf(s, t, p) == s.mask[CHOOSE i \in MaskAt(s, <<t, p>>) : TRUE][2]
Anew(s, p) == LET n == Cardinality(Of(s, p)) IN
    (\A t \in 1..n : MaskAt(s, <<t, p>>) # {}) =>
       /\ n > s.dim => \E t \in s.dim + 1..n : MaskOf(s, t, p) # MaskOf(s, ((t - 1) % s.dim) + 1, p)
       /\ s.dim > 1 => \E t \in 1..n : MaskOf(s, t, p) # MaskOf(s, t - ((t - 1) % s.dim), p)
TFinal(s) == CASE s.cover = 1 -> Bad("every feature is drawn some time", \A p \in Parties(s) : UNION {On(s.mask[i][2]) : i \in Of(s, p)} = 1..s.mask[CHOOSE i \in Of(s, p) : TRUE][4])
               [] s.cover = 2 -> Bad("parties draw independently", \A p, q \in Parties(s) : p < q => \E i \in Of(s, p), j \in Of(s, q) : s.mask[i][1][1] = s.mask[j][1][1] /\ s.mask[i][2] # s.mask[j][2])
                                \cup Bad("every tree is drawn for anew", \A p \in Parties(s) : Anew(s, p))
               [] OTHER -> {}
=============================================================================
