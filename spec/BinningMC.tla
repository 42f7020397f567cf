----------------------------- MODULE BinningMC -----------------------------
(* All small columns: the procedure (exact ranks; the sparse form ranks the stored values and inserts the zeros)    *)
(* against the properties. With GENERATE, random tables for replay.                                                 *)
EXTENDS Binning, TLC, Json
CONSTANTS LOW, HIGH, LENS, BINS, FAULT, GENERATE, COLS
VSET == (0 - LOW)..HIGH
VARIABLES ph, n, nb, tab, cols
vars == <<ph, n, nb, tab, cols>>
Init == ph = "size" /\ n = 0 /\ nb = 0 /\ tab = <<>> /\ cols = 0
Draw(S) == RandomElement(S)
\* skewed columns: few values, many zeros, all equal
Cell(k) == IF k = 1 THEN {0, 0 - LOW, HIGH} ELSE IF k = 2 THEN {0, 1} ELSE IF k = 3 THEN VSET \cup {0} ELSE IF k = 4 THEN 1..HIGH ELSE IF k = 5 THEN (0 - LOW)..(0 - 1) ELSE {2}
Size == /\ ph = "size" /\ ph' = "fill" /\ tab' = <<>>
        /\ IF GENERATE THEN \E a \in {Draw(LENS)}, b \in {Draw(BINS)}, c \in {Draw(1..COLS)} : n' = a /\ nb' = b /\ cols' = c
           ELSE \E a \in LENS, b \in BINS : n' = a /\ nb' = b /\ cols' = 1
Fill == /\ ph = "fill" /\ Len(tab) < cols /\ UNCHANGED <<ph, n, nb, cols>>
        /\ IF GENERATE THEN \E k \in {Draw(1..6)}, z \in {Draw(0..3)} : \E c \in {[i \in 1..n |-> IF Draw(1..4 + 0 * i) <= z /\ k # 4 /\ k # 5 THEN 0 ELSE Draw(Cell(k) \cup {x \in {} : i > 0})]} : tab' = Append(tab, c)
           ELSE \E c \in [1..n -> VSET] : tab' = Append(tab, c)
Done == ph = "fill" /\ Len(tab) = cols /\ ph' = "done" /\ UNCHANGED <<n, nb, tab, cols>>
Next == Size \/ Fill \/ Done
Spec == Init /\ [][Next]_vars
\* procedure
Ins(x, q) == LET i == CHOOSE j \in 0..Len(q) : (\A k \in 1..j : q[k] <= x) /\ (\A k \in j + 1..Len(q) : q[k] > x)
             IN SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
RECURSIVE SortUp(_)
SortUp(q) == IF q = <<>> THEN <<>> ELSE Ins(Head(q), SortUp(Tail(q)))
RECURSIVE Has(_, _, _)
Has(q, x, i) == IF i = 0 THEN FALSE ELSE q[i] = x \/ Has(q, x, i - 1)
RECURSIVE Dedup(_, _, _)
Dedup(q, i, acc) == IF i > Len(q) THEN acc ELSE Dedup(q, i + 1, IF FAULT # "dup" /\ Has(acc, q[i], Len(acc)) THEN acc ELSE Append(acc, q[i]))
Points(c, k) == LET s == SortUp(c) IN Dedup([i \in 1..k - 1 |-> s[Ideal(Len(c), i, k)]], 1, <<>>)
NonZero(c) == SelectSeq(c, LAMBDA x : x # 0)
SparsePoints(c, k) ==
    LET s == SortUp(NonZero(c)) neg == Cardinality({i \in 1..Len(c) : c[i] < 0}) z == Len(c) - Len(s)
        At(r) == IF r <= neg THEN s[r] ELSE IF r <= neg + z THEN 0 ELSE s[IF FAULT = "shift" THEN (IF r > Len(s) THEN Len(s) ELSE r) ELSE r - z]
    IN Dedup([i \in 1..k - 1 |-> At(Ideal(Len(c), i, k))], 1, <<>>)
RECURSIVE PBinFrom(_, _, _)
PBinFrom(x, sp, b) == IF b > Len(sp) THEN (IF FAULT = "last" THEN Len(sp) - 1 ELSE Len(sp))
                      ELSE IF (IF FAULT = "strict" THEN x < sp[b] ELSE x <= sp[b]) THEN b - 1 ELSE PBinFrom(x, sp, b + 1)
PBin(x, sp) == PBinFrom(x, sp, 1)
PZero(sp) == IF FAULT = "zero" THEN 0 ELSE PBin(0, sp)
R == ph = "done" /\ ~GENERATE
C == tab[1]
Ordered == R => Increasing(Points(C, nb)) /\ Len(Points(C, nb)) < nb
Mono == R => LET sp == Points(C, nb) IN \A x, y \in VSET : x <= y => PBin(x, sp) <= PBin(y, sp)
Agrees == R => LET sp == Points(C, nb) IN \A x \in VSET : Agree(PBin(x, sp), x, sp) /\ PBin(x, sp) = Bin(x, sp)
ZeroBin == R => LET sp == Points(C, nb) IN PZero(sp) = PBin(0, sp)
Alike == R => SparsePoints(C, nb) = Points(C, nb)
RECURSIVE BagOf(_, _)
BagOf(q, i) == IF i = 0 THEN <<>> ELSE BagAdd(BagOf(q, i - 1), q[i], 1)
Frequency == R => Covers(BagOf(C, n), Points(C, nb), nb, 0, 1)
Emit == (GENERATE /\ ph = "done") => PrintT("BEHAVIOUR " \o ToJson([nb |-> nb, n |-> n, tab |-> tab]))
=============================================================================
