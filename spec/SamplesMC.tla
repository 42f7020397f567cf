----------------------------- MODULE SamplesMC -----------------------------
(* A scan that builds the sparse vector entry by entry, a scan that collects labels partition by partition, and a  *)
(* fold of partial results. FAULT: "packed" numbers the stored entries consecutively, "tail" takes the width from   *)
(* the last stored entry, "negative" drops values below zero, "default" answers zero for missing entries, "each"    *)
(* checks the number of classes per partition only, "sum" adds the partitions' numbers of classes, "nothing" drops     *)
(* everything once a partial result is missing.                                                                     *)
EXTENDS Samples, TLC, Json
CONSTANTS CODES, WIDTH, LABELS, LIMIT, FAULT, GENERATE
Small == {0 - 3, 0 - 1, 0, 1, 2, 9}
Wide == {0, 0, 0 - 1, 1, 2, 0 - 2, 3, 0 - 7, 1048576, 0 - 1048576, 262144, 0 - 524288, 3145728, 11, 20971520}
VARIABLES dense, i, st, width, parts, seen, per, refused, acc, todo, ph
vars == <<dense, i, st, width, parts, seen, per, refused, acc, todo, ph>>
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Blank == /\ dense = <<>> /\ i = 1 /\ st = {} /\ width = 0 /\ parts = <<>> /\ seen = {} /\ per = 0 /\ refused = FALSE /\ acc = <<>> /\ todo = <<>>
Init == Blank /\ ph = "pick"
PickDense == ph = "pick" /\ ph' = "scan" /\ dense' \in (IF GENERATE THEN {[k \in 1..RandomElement(0..WIDTH) |-> RandomElement(CODES)]} ELSE Seqs(CODES, WIDTH)) /\ UNCHANGED <<i, st, width, parts, seen, per, refused, acc, todo>>
Stores(c) == IF FAULT = "negative" THEN c >= 2 ELSE Mag(c) >= 2
Scan == /\ ph = "scan" /\ i <= Len(dense)
        /\ st' = IF Stores(dense[i]) THEN st \cup {<<IF FAULT = "packed" THEN Cardinality(st) ELSE i - 1, dense[i]>>} ELSE st
        /\ width' = IF FAULT = "tail" THEN (IF Stores(dense[i]) THEN i ELSE width) ELSE Len(dense)
        /\ i' = i + 1 /\ UNCHANGED <<dense, parts, seen, per, refused, acc, todo, ph>>
Scanned == ph = "scan" /\ i > Len(dense) /\ ph' = "done" /\ UNCHANGED <<dense, i, st, width, parts, seen, per, refused, acc, todo>>
PickLabels == ph = "pick" /\ ~GENERATE /\ ph' = "labels" /\ parts' \in Seqs(Seqs(LABELS, 3), 2) /\ UNCHANGED <<dense, i, st, width, seen, per, refused, acc, todo>>
Collect == /\ ph = "labels" /\ i <= Len(parts) /\ seen' = seen \cup Classes(parts[i]) /\ per' = per + Cardinality(Classes(parts[i]))
           /\ refused' = (refused \/ TooMany(parts[i], LIMIT)) /\ i' = i + 1 /\ UNCHANGED <<dense, st, width, parts, acc, todo, ph>>
Number == IF FAULT = "sum" THEN per ELSE Cardinality(seen)
Collected == /\ ph = "labels" /\ i > Len(parts) /\ refused' = (refused \/ (FAULT # "each" /\ Number > LIMIT)) /\ ph' = "counted"
             /\ UNCHANGED <<dense, i, st, width, parts, seen, per, acc, todo>>
Partial == {<<>>} \cup {<<q>> : q \in [1..2 -> {0, 1, 5}]}
PickParts == ph = "pick" /\ ~GENERATE /\ ph' = "fold" /\ todo' \in Seqs(Partial, 3) /\ UNCHANGED <<dense, i, st, width, parts, seen, per, refused, acc>>
Fold == /\ ph = "fold" /\ i <= Len(todo) /\ i' = i + 1
        /\ acc' = IF FAULT = "nothing" /\ i > 1 /\ (todo[i] = <<>> \/ acc = <<>>) THEN <<>> ELSE Plus(acc, todo[i])
        /\ UNCHANGED <<dense, st, width, parts, seen, per, refused, todo, ph>>
Next == PickDense \/ Scan \/ Scanned \/ PickLabels \/ Collect \/ Collected \/ PickParts \/ Fold
Spec == Init /\ [][Next]_vars
All == [k \in 1..(IF Len(parts) = 2 THEN Len(parts[1]) + Len(parts[2]) ELSE IF Len(parts) = 1 THEN Len(parts[1]) ELSE 0) |->
           IF k <= Len(parts[1]) THEN parts[1][k] ELSE parts[2][k - Len(parts[1])]]
GetOf(pos, def) == IF FAULT = "default" THEN Answer(st, pos, 0) ELSE Answer(st, pos, def)
Faithful == ph = "done" => \A k \in 1..Len(dense) : GetOf(k - 1, 77) = (IF Mag(dense[k]) >= 2 THEN dense[k] ELSE 77)
Counted == ph = "done" => /\ Cardinality(st) = Cardinality({k \in 1..Len(dense) : Mag(dense[k]) >= 2})
                          /\ (Len(dense) > 0 => width - Cardinality(st) = Cardinality({k \in 1..Len(dense) : Mag(dense[k]) < 2}))
LabelsRight == ph = "counted" => /\ refused = TooMany(All, LIMIT)
                                 /\ ~refused => (seen = Classes(All) /\ Number = Cardinality(Classes(All)))
Given == {k \in 1..(i - 1) : todo[k] # <<>>}
Total == ph = "fold" => IF Given = {} THEN acc = <<>> ELSE acc # <<>> /\ \A p \in 1..2 : acc[1][p] = SumTo([k \in 1..(i - 1) |-> IF todo[k] = <<>> THEN 0 ELSE todo[k][1][p]], i - 1)
Emit == (GENERATE /\ ph = "done") => PrintT("BEHAVIOUR " \o ToJson([dense |-> dense]))
=============================================================================
