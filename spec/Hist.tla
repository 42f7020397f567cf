-------------------------------- MODULE Hist --------------------------------
(* Histograms of a batch of nodes. A case c has samples 1..c.n; c.bin[k][f] is the stored bin of sample k in    *)
(* feature f, or 0 - 1 when nothing is stored; c.zero[f] is the bin of zero, c.nb[f] the number of bins,        *)
(* c.state[k] = 0 marks a finished sample, c.node[k] its node; c.g, c.h the gradients and hessians; c.valid[f]  *)
(* = 1 marks features in use; c.nodes is the sequence of nodes of the batch.                                   *)
EXTENDS Integers, Sequences, FiniteSets
BinOf(c, k, f) == IF c.bin[k][f] < 0 THEN c.zero[f] ELSE c.bin[k][f]
Members(c, S, nd) == {k \in S : c.state[k] # 0 /\ c.node[k] = nd}
RECURSIVE Sum3(_, _)
Sum3(c, S) == IF S = {} THEN <<0, 0, 0>> ELSE LET k == CHOOSE x \in S : TRUE r == Sum3(c, S \ {k})
              IN <<c.g[k] + r[1], c.h[k] + r[2], 1 + r[3]>>
Cell(c, S, nd, f, b) == Sum3(c, {k \in Members(c, S, nd) : BinOf(c, k, f) = b})
\* bins are numbered from 0
Histo(c, S, nd, f) == [b \in 1..c.nb[f] |-> Cell(c, S, nd, f, b - 1)]
Running(c, S, nd, f) == [b \in 1..c.nb[f] |-> Sum3(c, {k \in Members(c, S, nd) : BinOf(c, k, f) <= b - 1})]
Table(c, S) == [i \in 1..Len(c.nodes) |-> [f \in 1..Len(c.nb) |-> IF c.valid[f] = 1 THEN Histo(c, S, c.nodes[i], f) ELSE <<>>]]
RunTable(c, S) == [i \in 1..Len(c.nodes) |-> [f \in 1..Len(c.nb) |-> IF c.valid[f] = 1 THEN Running(c, S, c.nodes[i], f) ELSE <<>>]]
=============================================================================
