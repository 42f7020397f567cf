------------------------------ MODULE CallerMC ------------------------------
(* The library's way of working on tables: a new table, a shallow copy of each row, a copied or converted vector, and  *)
(* assignments only to what it created itself. Every history of calls on the same tables. GENERATE emits histories.  *)
EXTENDS Caller, TLC, Json
CONSTANTS CALLS, OPS, TABLES, FAULT, GENERATE
VARIABLES h, hist, orig
vars == <<h, hist, orig>>
Dense == <<3, 0>>
H0 == [tab |-> [t \in 1..TABLES |-> <<2 * t - 1, 2 * t>>],
       row |-> [r \in 1..2 * TABLES |-> [feat |-> r, label |-> r % 2]],
       vec |-> [v \in 1..2 * TABLES |-> IF v % 2 = 1 THEN <<3, 0>> ELSE <<0, 7>>]]
Init == h = H0 /\ hist = <<>> /\ orig = [t \in 1..TABLES |-> View(H0, t)]
\* one row: shallow copy, new vector, assignment of the new vector to the copy
RowCopy(g, r) ==
    LET a == Fresh(g.row) IN [heap |-> [g EXCEPT !.row = Put(@, a, g.row[r])], at |-> a]
Bins(v) == [i \in 1..Len(v) |-> IF v[i] > 0 THEN 1 ELSE 0]
ConvertRow(g, r) ==
    LET c == IF FAULT = "row" THEN [heap |-> g, at |-> r] ELSE RowCopy(g, r)
        old == c.heap.row[c.at].feat
        a == IF FAULT = "vector" THEN old ELSE Fresh(c.heap.vec)
        g1 == [c.heap EXCEPT !.vec = Put(@, a, Bins(c.heap.vec[old]))]
    IN [heap |-> [g1 EXCEPT !.row = Put(@, c.at, [g1.row[c.at] EXCEPT !.feat = a])], at |-> c.at]
RECURSIVE ConvertAll(_, _, _, _)
ConvertAll(g, q, i, acc) == IF i > Len(q) THEN [heap |-> g, rows |-> acc] ELSE LET c == ConvertRow(g, q[i]) IN ConvertAll(c.heap, q, i + 1, Append(acc, c.at))
Convert(g, t) == LET c == ConvertAll(g, g.tab[t], 1, <<>>) a == IF FAULT = "table" THEN t ELSE Fresh(g.tab)
                 IN [c.heap EXCEPT !.tab = Put(@, a, c.rows)]
\* labels turned into class numbers, in a new table of new rows
Relabel(g, t) == IF FAULT = "label" THEN [g EXCEPT !.row = [r \in DOMAIN @ |-> IF \E i \in 1..2 : g.tab[t][i] = r THEN [@[r] EXCEPT !.label = 9] ELSE @[r]]] ELSE g
Call(op, t) == CASE op = "fit" -> Relabel(Convert(h, t), t) [] op = "bin" -> Convert(h, t) [] OTHER -> h
Draw(S) == RandomElement(S)
Next == /\ Len(hist) < CALLS
        /\ IF GENERATE THEN \E o \in {Draw(OPS)}, t \in {Draw(1..TABLES)} : hist' = Append(hist, <<o, t>>) /\ UNCHANGED h
           ELSE \E o \in OPS, t \in 1..TABLES : hist' = Append(hist, <<o, t>>) /\ h' = Call(o, t)
        /\ UNCHANGED orig
Spec == Init /\ [][Next]_vars
Untouched == \A t \in 1..TABLES : View(h, t) = orig[t]
Emit == (GENERATE /\ Len(hist) = CALLS) => PrintT("BEHAVIOUR " \o ToJson([calls |-> hist]))
=============================================================================
