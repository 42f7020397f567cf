------------------------------ MODULE SketchMC ------------------------------
(* The buffered summary: insertions go to a buffer, a full buffer is merged into the list of samples, a long list  *)
(* is compressed, queries compress first. FAULT: "droptail" forgets samples above the buffer's last element,       *)
(* "nodelta" gives no uncertainty to inserted samples and compresses twice as much, "head" merges the first sample. *)
EXTENDS Sketch, TLC, Json
CONSTANTS VALS, LENS, HEADS, THRESS, ERRS, FAULT, GENERATE, QD
\* errors as numbers 100 en + ed
Errs == {<<x \div 100, x % 100>> : x \in ERRS}
VARIABLES cfg, h, buf, s, n, script, stop
vars == <<cfg, h, buf, s, n, script, stop>>
Init == cfg = [head |-> 0, thres |-> 0, e |-> <<0, 1>>, n |-> 0] /\ h = <<>> /\ buf = <<>> /\ s = <<>> /\ n = 0 /\ script = <<>> /\ stop = FALSE
Pick == /\ cfg.head = 0 /\ IF GENERATE
              THEN \E a \in {RandomElement(HEADS)}, b \in {RandomElement(THRESS)}, e \in {RandomElement(Errs)}, n0 \in {RandomElement(LENS)} :
                        cfg' = [head |-> a, thres |-> b, e |-> e, n |-> n0]
              ELSE \E a \in HEADS, b \in THRESS, e \in Errs, n0 \in LENS : cfg' = [head |-> a, thres |-> b, e |-> e, n |-> n0]
        /\ UNCHANGED <<h, buf, s, n, script, stop>>
Ins(x, q) == LET i == CHOOSE j \in 0..Len(q) : (\A k \in 1..j : q[k] <= x) /\ (\A k \in j + 1..Len(q) : q[k] > x)
             IN SubSeq(q, 1, i) \o <<x>> \o SubSeq(q, i + 1, Len(q))
RECURSIVE SortSeq0(_)
SortSeq0(q) == IF q = <<>> THEN <<>> ELSE Ins(Head(q), SortSeq0(Tail(q)))
\* merges the sorted buffer b (from position o) into samples t (from position i), c counted so far
RECURSIVE Mix(_, _, _, _, _, _)
Mix(b, o, t, i, c, acc) ==
    IF o > Len(b) THEN (IF FAULT = "droptail" THEN acc ELSE acc \o SubSeq(t, i, Len(t)))
    ELSE IF i <= Len(t) /\ t[i][1] <= b[o] THEN Mix(b, o, t, i + 1, c, Append(acc, t[i]))
    ELSE LET d == IF acc = <<>> \/ (i > Len(t) /\ o = Len(b)) \/ FAULT = "nodelta" THEN 0 ELSE (2 * cfg.e[1] * (c + 1)) \div cfg.e[2]
         IN Mix(b, o + 1, t, i, c + 1, Append(acc, <<b[o], 1, d>>))
Flush(b, t, c) == IF b = <<>> THEN t ELSE Mix(SortSeq0(b), 1, t, 1, c, <<>>)
\* compression from the right; hd is the sample being extended, acc what is already kept
RECURSIVE Squeeze(_, _, _, _, _)
Squeeze(t, i, hd, acc, c) ==
    IF i < 2 THEN (LET r == <<hd>> \o acc IN
                   IF t[1][1] <= hd[1] /\ Len(t) > 1 /\ FAULT # "head" THEN <<t[1]>> \o r ELSE r)
    ELSE IF (t[i][2] + hd[2] + hd[3]) * cfg.e[2] < (IF FAULT = "nodelta" THEN 4 ELSE 2) * cfg.e[1] * c
         THEN Squeeze(t, i - 1, <<hd[1], hd[2] + t[i][2], hd[3]>>, acc, c)
         ELSE Squeeze(t, i - 1, t[i], <<hd>> \o acc, c)
Compress(t, c) == IF t = <<>> THEN t ELSE Squeeze(t, Len(t) - 1, t[Len(t)], <<>>, c)
Insert(x) ==
    LET b == Append(buf, x) IN
    /\ Len(h) < cfg.n /\ h' = Append(h, x)
    /\ IF Len(b) >= cfg.head
       THEN LET c == n + Len(b) t == Flush(b, s, n) IN n' = c /\ buf' = <<>> /\ s' = IF Len(t) >= cfg.thres THEN Compress(t, c) ELSE t
       ELSE buf' = b /\ UNCHANGED <<s, n>>
    /\ script' = IF GENERATE THEN Append(script, <<"insert", x>>) ELSE script
\* a query (or an explicit compression) in between
Touch == LET c == n + Len(buf) IN
    /\ n' = c /\ buf' = <<>> /\ s' = Compress(Flush(buf, s, n), c)
    /\ script' = IF GENERATE THEN Append(script, <<"touch", 0>>) ELSE script
    /\ UNCHANGED h
Next == Pick \/ (cfg.head # 0 /\ stop = FALSE /\ UNCHANGED cfg /\
          (\/ ((IF GENERATE THEN \E x \in {RandomElement(VALS)} : Insert(x) ELSE \E x \in VALS : Insert(x)) /\ UNCHANGED stop)
           \/ (h # <<>> /\ (buf # <<>> \/ GENERATE) /\ (~GENERATE \/ RandomElement(1..6) = 1) /\ Touch /\ UNCHANGED stop)
           \/ (GENERATE /\ Len(h) = cfg.n /\ stop' = TRUE /\ UNCHANGED <<h, buf, s, n, script>>)))
Spec == Init /\ [][Next]_vars
\* the answer to a query in this state
\* the kept sample whose promised ranks are closest to the rank asked for, the first one of several
Worst(t, i, r) == LET lo == SumG(t, i) hi == lo + t[i][3] IN IF hi - r > r - lo THEN hi - r ELSE r - lo
Near(t, S, r) == t[CHOOSE i \in S : \A j \in S : IF j < i THEN Worst(t, i, r) < Worst(t, j, r) ELSE Worst(t, i, r) <= Worst(t, j, r)][1]
Closest(t, r) == Near(t, 1..Len(t), r)
Answer(t, c, qn) ==
    IF qn * cfg.e[2] <= cfg.e[1] * QD THEN t[1][1]
    ELSE IF (QD - qn) * cfg.e[2] <= cfg.e[1] * QD THEN t[Len(t)][1]
    ELSE Closest(t, CeilDiv(qn * c, QD))
Final == LET c == n + Len(buf) IN IF buf = <<>> THEN s ELSE Compress(Flush(buf, s, n), c)
Counted == n + Len(buf) = Len(h)
Kept == LET t == Final IN Sorted(t) /\ FromInput(h, t) /\ Ends(h, t) /\ SumG(t, Len(t)) = Len(h)
\* the true ranks of a kept value meet the interval its g and delta promise
Ranks == LET t == Final IN \A i \in 1..Len(t) :
            LET lo == SumG(t, i) hi == lo + t[i][3] IN lo <= UpTo(h, t[i][1]) /\ Below(h, t[i][1]) + 1 <= hi
Promise == h # <<>> => LET t == Final IN \A qn \in 0..QD : Good(h, Answer(t, Len(h), qn), qn, QD, cfg.e[1], cfg.e[2])
\* a larger quantile never has a smaller answer
Monotone == h # <<>> => LET t == Final IN \A qn \in 1..QD : Answer(t, Len(h), qn - 1) <= Answer(t, Len(h), qn)
\* the sparse form: z zeros (the value 2) are never inserted; inserted values up to zero count as smaller ones
Copies(x, k) == [i \in 1..k |-> x]
SAnswer(t, c, z, qn) ==
    LET small == UpTo(h, 2) r0 == CeilDiv(qn * (c + z), QD) r == IF r0 < 1 THEN 1 ELSE r0
    IN IF r <= small THEN Near(t, {i \in 1..Len(t) : t[i][1] <= 2}, r)
       ELSE IF r <= small + z THEN 2
       ELSE Near(t, {i \in 1..Len(t) : t[i][1] > 2 \/ FAULT = "cross"}, IF FAULT = "nozeros" THEN r ELSE r - z)
SparsePromise == h # <<>> => LET t == Final IN \A z \in 1..2, qn \in 0..QD :
                    Good(h \o Copies(2, z), SAnswer(t, Len(h), z, qn), qn, QD, cfg.e[1], cfg.e[2])
Emit == (GENERATE /\ stop) => PrintT("BEHAVIOUR " \o ToJson([head |-> cfg.head, thres |-> cfg.thres, e |-> cfg.e, script |-> script]))
=============================================================================
