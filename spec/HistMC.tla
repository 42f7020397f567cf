------------------------------- MODULE HistMC -------------------------------
(* The scanning algorithm: rows are taken in any order into one of two partial histograms, adding stored values *)
(* to their bins and remembering what was stored; the bin of zero then receives the node sum minus the stored   *)
(* sum; the parts are merged and accumulated. For every case the result is the definition in Hist. FAULT:       *)
(* "finished" counts finished samples, "zerotwice" adds the whole node sum to the bin of zero, "foreign" files  *)
(* samples of foreign nodes under the first node.                                                              *)
EXTENDS Hist, TLC, Json
CONSTANTS NN, VALS, FAULT, GENERATE, MAXN
VARIABLES c, left, part, phase, res
vars == <<c, left, part, phase, res>>
NF == 2
Cases == {[n |-> n, bin |-> bn, zero |-> z, nb |-> <<3, 2>>, state |-> st, node |-> nd, g |-> gg, h |-> [k \in 1..n |-> 1],
           valid |-> v, nodes |-> <<4, 2>>] :
          n \in {NN}, bn \in [1..NN -> {<<0 - 1, 1>>, <<0, 0 - 1>>, <<2, 1>>, <<1, 0>>}], z \in {<<1, 0>>}, st \in [1..NN -> {0, 1}],
          nd \in [1..NN -> {2, 4, 9}], gg \in {[k \in 1..NN |-> k], [k \in 1..NN |-> 2 - k]}, v \in {<<1, 1>>, <<0, 1>>}}
RCase(x) == LET n == RandomElement(1..MAXN) IN
    [n |-> n, bin |-> [k \in 1..n |-> <<RandomElement(0 - 1..2), RandomElement(0 - 1..1), RandomElement(0 - 1..3)>>],
     zero |-> <<RandomElement(0..2), RandomElement(0..1), RandomElement(0..3)>>, nb |-> <<3, 2, 4>>,
     state |-> [k \in 1..n |-> RandomElement({0, 1, 1, 1})], node |-> [k \in 1..n |-> RandomElement({1, 2, 5, 6, 9})],
     g |-> [k \in 1..n |-> RandomElement(0 - 5..5)], h |-> [k \in 1..n |-> RandomElement(0..4)],
     valid |-> RandomElement({<<1, 1, 1>>, <<1, 1, 1>>, <<1, 0, 1>>, <<0, 1, 0>>, <<0, 1, 1>>}), nodes |-> RandomElement({<<1, 2>>, <<6>>, <<5, 2, 1>>, <<2, 1, 6, 5>>})]
Zero3 == <<0, 0, 0>>
Add(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
Sub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
F(cc) == 1..Len(cc.nb)
Empty(cc) == [hist |-> [i \in 1..Len(cc.nodes) |-> [f \in F(cc) |-> [b \in 1..cc.nb[f] |-> Zero3]]],
              tot |-> [i \in 1..Len(cc.nodes) |-> Zero3], opt |-> [i \in 1..Len(cc.nodes) |-> [f \in F(cc) |-> Zero3]]]
Init == IF GENERATE THEN c = [n |-> 0] /\ left = {} /\ part = <<>> /\ phase = "pick" /\ res = <<>>
        ELSE c \in Cases /\ left = 1..c.n /\ part = [q \in 1..2 |-> Empty(c)] /\ phase = "scan" /\ res = <<>>
\* when generating, the case is drawn in an action (an initial state is drawn only once per run of TLC)
Pick == /\ phase = "pick" /\ c' = RCase(phase)
        /\ left' = 1..c'.n /\ part' = [q \in 1..2 |-> Empty(c')] /\ phase' = "scan" /\ res' = <<>>
V(k) == <<c.g[k], c.h[k], 1>>
Counted(k) == (c.state[k] # 0 \/ FAULT = "finished") /\ (FAULT = "foreign" \/ \E i \in 1..Len(c.nodes) : c.nodes[i] = c.node[k])
Slot(k) == IF \E i \in 1..Len(c.nodes) : c.nodes[i] = c.node[k] THEN CHOOSE i \in 1..Len(c.nodes) : c.nodes[i] = c.node[k] ELSE 1
Scan(k, q) ==
    /\ phase = "scan" /\ k \in left /\ left' = left \ {k}
    /\ part' = IF ~Counted(k) THEN part
               ELSE LET i == Slot(k) p == part[q] IN
                    [part EXCEPT ![q] = [hist |-> [p.hist EXCEPT ![i] = [f \in F(c) |-> [b \in 1..c.nb[f] |->
                                                   IF c.bin[k][f] = b - 1 THEN Add(@[f][b], V(k)) ELSE @[f][b]]]],
                                         tot |-> [p.tot EXCEPT ![i] = Add(@, V(k))],
                                         opt |-> [p.opt EXCEPT ![i] = [f \in F(c) |-> IF c.bin[k][f] >= 0 THEN Add(@[f], V(k)) ELSE @[f]]]]]
    /\ UNCHANGED <<c, phase, res>>
Fill(p) == [i \in 1..Len(c.nodes) |-> [f \in F(c) |-> IF c.valid[f] = 0 THEN <<>> ELSE
             [b \in 1..c.nb[f] |-> IF b - 1 = c.zero[f] THEN Add(p.hist[i][f][b], IF FAULT = "zerotwice" THEN p.tot[i] ELSE Sub(p.tot[i], p.opt[i][f])) ELSE p.hist[i][f][b]]]]
Merge == /\ phase = "scan" /\ left = {} /\ phase' = "merged"
         /\ LET x == Fill(part[1]) y == Fill(part[2]) IN
            res' = [i \in 1..Len(c.nodes) |-> [f \in F(c) |-> [b \in 1..Len(x[i][f]) |-> Add(x[i][f][b], y[i][f][b])]]]
         /\ UNCHANGED <<c, left, part>>
RECURSIVE Acc(_, _)
Acc(hh, b) == IF b = 0 THEN Zero3 ELSE Add(hh[b], Acc(hh, b - 1))
Accumulate == /\ phase = "merged" /\ phase' = "acc"
              /\ res' = [i \in 1..Len(c.nodes) |-> [f \in F(c) |-> [b \in 1..Len(res[i][f]) |-> Acc(res[i][f], b)]]]
              /\ UNCHANGED <<c, left, part>>
Next == Pick \/ (IF GENERATE THEN (left # {} /\ Scan(CHOOSE k \in left : TRUE, 1)) ELSE \E k \in 1..c.n, q \in 1..2 : Scan(k, q)) \/ Merge \/ Accumulate
Spec == Init /\ [][Next]_vars
Correct == (phase = "merged" => res = Table(c, 1..c.n)) /\ (phase = "acc" => res = RunTable(c, 1..c.n))
LastIsTotal == phase = "acc" => \A i \in 1..Len(c.nodes) : \A f \in F(c) : c.valid[f] = 1 =>
                  res[i][f][c.nb[f]] = Sum3(c, Members(c, 1..c.n, c.nodes[i]))
Emit == (GENERATE /\ phase = "acc") => PrintT("BEHAVIOUR " \o ToJson(c))
=============================================================================
