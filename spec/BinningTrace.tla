----------------------------- MODULE BinningTrace -----------------------------
(* A recorded use of a binning object. Cells are integers; NA marks a cell a sparse row does not store (a zero).     *)
EXTENDS Binning, TraceKit
NA == 100000000
TInitSt(t) == [nb |-> t.nb, en |-> t.en, ed |-> t.ed, sel |-> {t.sel[i] : i \in 1..Len(t.sel)}, tab |-> <<>>, sps |-> <<>>, seen |-> {}]
V(x) == IF x = NA THEN 0 ELSE x
RECURSIVE ColBag(_, _, _)
ColBag(rows, c, i) == IF i = 0 THEN <<>> ELSE BagAdd(ColBag(rows, c, i - 1), V(rows[i][c]), 1)
Names(q) == {q[i].c : i \in 1..Len(q)}
Get(q, c) == LET i == CHOOSE j \in 1..Len(q) : q[j].c = c IN q[i].sp
Fl(s, e) ==
    CASE e.op = "table" -> {}
      [] e.op = "fit" ->
            IF e.out # "ok" THEN {"fitting split points succeeds"} ELSE
            Bad("exactly the requested columns are fitted", Names(e.sps) = s.sel)
       \cup UNION {LET c == e.sps[i].c sp == e.sps[i].sp b == ColBag(e.rows, c, Len(e.rows))
                   IN Bad("split points are distinct and increasing", Increasing(sp))
                 \cup Bad("there are fewer split points than bins", Len(sp) < s.nb)
                 \cup Bad("split points are values of the column", \A k \in 1..Len(sp) : sp[k] \in DOMAIN b)
                 \cup Bad("split points lie at the equal-frequency ranks", Covers(b, sp, s.nb, s.en, s.ed))
                 \cup Bad("dense and sparse forms bin alike", e.other = 1 => c \in Names(s.sps) /\ Get(s.sps, c) = sp) : i \in 1..Len(e.sps)}
      [] e.op = "refused" -> Bad("an unknown column is refused", e.out \notin {"ok", "hang"})
      [] e.op = "pass" -> Bad("without columns to transform the data passes through", e.out = "ok" /\ e.got = e.rows)
      [] e.op = "convert" ->
            IF e.out # "ok" THEN {"converting to bins succeeds"} ELSE
            LET cols == {e.cols[i] : i \in 1..Len(e.cols)} IN
            Bad("every sample keeps its key", e.keys1 = e.keys0)
       \cup Bad("every sample keeps its label, number and weight", e.meta1 = e.meta0)
       \cup Bad("every sample keeps its features", Len(e.got) = Len(e.rows) /\ \A i \in 1..Len(e.rows) : i <= Len(e.got) => DOMAIN e.got[i] = DOMAIN e.rows[i])
       \cup Bad("the header is kept", e.header = 1)
       \cup (IF Len(e.got) # Len(e.rows) THEN {} ELSE UNION {
                LET x == e.rows[i] y == e.got[i] IN
                IF DOMAIN x # DOMAIN y THEN {} ELSE
                Bad("only the requested columns change", \A c \in DOMAIN x : (c - 1 \notin cols \/ x[c] = NA) => y[c] = x[c])
           \cup Bad("a value goes to the first bin whose split point is not below it", \A c \in DOMAIN x : (c - 1 \in cols /\ x[c] # NA) => y[c] = 4 * Bin(x[c], Get(e.sps, c)))
           \cup Bad("being in a bin or below is being at most its split point", \A c \in DOMAIN x : (c - 1 \in cols /\ x[c] # NA) => Agree(y[c] \div 4, x[c], Get(e.sps, c))) : i \in 1..Len(e.rows)})
       \cup Bad("the bin reported for zero is the bin of a zero value", {e.zero[i][1] : i \in 1..Len(e.zero)} = cols /\ \A i \in 1..Len(e.zero) : e.zero[i][2] = Bin(0, Get(e.sps, e.zero[i][1] + 1)))
       \cup Bad("the split points reported are those used", e.rep = [i \in 1..Len(e.used) |-> Get(e.sps, e.used[i])])
St(s, e) == IF e.op = "fit" THEN [s EXCEPT !.sps = e.sps] ELSE s
Fin(s) == {}
=============================================================================
