------------------------------ MODULE MergeMC ------------------------------
(* Sketches of parts of the data, merged one after the other: the promise holds for the whole. all: everything  *)
(* merged so far, m its samples. FAULT: "plain" keeps the rank intervals as they were, "lost" forgets the rest   *)
(* of one side, "twice" counts the other part once too often.                                                    *)
EXTENDS SketchMC
CONSTANT PARTS
VARIABLES all, m, parts
mvars == <<vars, all, m, parts>>
RECURSIVE Weave(_, _, _, _, _)
Weave(a, i, b, j, acc) ==
    IF i > Len(a) /\ j > Len(b) THEN acc
    ELSE IF FAULT = "lost" /\ j > Len(b) THEN acc
    ELSE LET first == j > Len(b) \/ (i <= Len(a) /\ a[i][1] < b[j][1])
             x == IF first THEN a[i] ELSE b[j]
             q == IF first THEN b ELSE a
             k == IF first THEN j ELSE i
             d == IF FAULT # "plain" /\ k > 1 /\ k <= Len(q) THEN q[k][2] + q[k][3] - 1 ELSE 0
         IN Weave(a, IF first THEN i + 1 ELSE i, b, IF first THEN j ELSE j + 1, Append(acc, <<x[1], x[2], x[3] + d>>))
Merge(a, na, b, nb) == IF nb = 0 THEN a ELSE IF na = 0 THEN b ELSE Compress(Weave(a, 1, b, 1, <<>>), na + nb)
MInit == Init /\ all = <<>> /\ m = <<>> /\ parts = 0
Join == /\ cfg.head # 0 /\ parts < PARTS /\ (Len(h) = cfg.n \/ (parts > 0 /\ h # <<>>))
        /\ all' = all \o h /\ m' = Merge(m, Len(all), Final, Len(h)) /\ parts' = parts + 1
        /\ h' = <<>> /\ buf' = <<>> /\ s' = <<>> /\ n' = 0 /\ UNCHANGED <<cfg, script, stop>>
MNext == ((Next /\ (parts < PARTS \/ cfg.head = 0)) /\ UNCHANGED <<all, m, parts>>) \/ Join
MSpec == MInit /\ [][MNext]_mvars
MKept == Sorted(m) /\ FromInput(all, m) /\ Ends(all, m) /\ SumG(m, Len(m)) = Len(all)
MRanks == \A i \in 1..Len(m) : LET lo == SumG(m, i) hi == lo + m[i][3] IN lo <= UpTo(all, m[i][1]) /\ Below(all, m[i][1]) + 1 <= hi
MPromise == all # <<>> => \A qn \in 0..QD : Good(all, Answer(m, Len(all), qn), qn, QD, cfg.e[1], cfg.e[2])
=============================================================================
