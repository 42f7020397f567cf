------------------------------ MODULE FilesMC ------------------------------
EXTENDS Files, TLC, Json
CONSTANTS ROWS, COLS, CELLS, BLANKS, SEEDS, DENS, FAULT, GENERATE
VARIABLES ph, lab, rows, blanks, term, parties, cut
vars == <<ph, lab, rows, blanks, term, parties, cut>>
Init == ph = "file" /\ lab = TRUE /\ rows = <<>> /\ blanks = 0 /\ term = TRUE /\ parties = <<>> /\ cut = <<>>
Draw(S) == RandomElement(S)
File == /\ ph = "file" /\ ph' = "split" /\ UNCHANGED <<parties, cut>>
        /\ IF GENERATE THEN \E a \in {Draw(BOOLEAN)}, n \in {Draw(ROWS)}, c \in {Draw(COLS)}, b \in {Draw(BLANKS)}, t \in {Draw(BOOLEAN)} :
                              /\ lab' = a /\ blanks' = b /\ term' = t
                              /\ \E r \in {[i \in 1..n |-> [j \in 1..c + 2 |-> IF j > 0 THEN Draw(CELLS \cup {x \in {} : i + j > 0}) ELSE 0]]} : rows' = r
           ELSE \E a \in BOOLEAN, n \in ROWS, c \in COLS, b \in BLANKS, t \in BOOLEAN :
                  /\ lab' = a /\ blanks' = b /\ term' = t /\ \E r \in [1..n -> [1..c + 2 -> CELLS]] : rows' = r
\* the text: lines of cells, one per row, terminated (the last line perhaps not), then blank lines; reading splits at the terminators
Text == <<[j \in 1..Len(IF rows = <<>> THEN <<0, 0, 0>> ELSE rows[1]) |-> j]>> \o rows \o [i \in 1..blanks |-> <<>>]
Pieces == IF FAULT = "last" /\ ~term /\ Len(Text) > 1 THEN SubSeq(Text, 1, Len(Text) - 1) ELSE Text
Kept == IF FAULT = "blank" THEN Pieces ELSE SelectSeq(Pieces, LAMBDA q : q # <<>>)
PHead == IF FAULT = "header" THEN From(Kept[1], 1) ELSE From(Kept[1], Skip(lab))
PRows == [i \in 1..Len(Kept) - 1 |-> Kept[i + 1]]
Reading == (ph # "file" /\ ~GENERATE) => /\ PHead = Header(Text[1], lab) /\ Len(PRows) = Len(rows) /\ Ids(PRows) = Ids(rows) /\ Feats(PRows, lab) = Feats(rows, lab)
\* splitting: every party rearranges by the seed (abstractly, rotation and reversal) and cuts
Rot(q, k) == [i \in 1..Len(q) |-> q[((i + k - 1) % Len(q)) + 1]]
Rearr(q, s) == IF Len(q) = 0 THEN q ELSE Rot(q, s)
Split == /\ ph = "split" /\ ph' = "done" /\ UNCHANGED <<lab, rows, blanks, term>>
         /\ IF GENERATE THEN \E s \in {Draw(SEEDS)}, d \in {Draw(DENS)} : \E k \in {Draw(0..d)} : cut' = <<k, d, s>> /\ parties' = <<>>
            ELSE \E s \in SEEDS, d \in DENS : \E k \in 0..d : LET n == Len(rows) c == IF FAULT = "round" THEN (n * k + d - 1) \div d ELSE Share(n, k, d) IN
                 /\ cut' = <<k, d, s>>
                 /\ parties' = [p \in 1..2 |-> LET q == Rearr([i \in 1..n |-> i], IF FAULT = "seed" THEN s + p ELSE s)
                                               IN [a |-> SubSeq(q, 1, c), b |-> SubSeq(q, (IF FAULT = "gap" THEN c + 2 ELSE c + 1), n)]]
Next == File \/ Split
Spec == Init /\ [][Next]_vars
Parts == (ph = "done" /\ ~GENERATE) => \A p \in 1..2 : /\ Len(parties[p].a) = Share(Len(rows), cut[1], cut[2])
                                                       /\ Len(parties[p].a) + Len(parties[p].b) = Len(rows)
                                                       /\ SetOf(parties[p].a) \cup SetOf(parties[p].b) = 1..Len(rows)
Aligned == (ph = "done" /\ ~GENERATE) => parties[1] = parties[2]
Emit == (GENERATE /\ ph = "done") => PrintT("BEHAVIOUR " \o ToJson([lab |-> lab, rows |-> rows, blanks |-> blanks, term |-> term, cut |-> cut]))
=============================================================================
