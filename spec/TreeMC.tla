------------------------------- MODULE TreeMC -------------------------------
(* Growing a tree level by level, the split of every node chosen in stages as the parties do it: each host's  *)
(* best candidate is found on its own, then the best host, then guest against host. Checked on every small    *)
(* data set (gradients are GS minus 2) against the global definition of TreeSem. MUT names a fault: "hosttie" lets a host win ties,      *)
(* "hostmin" forgets the minimum leaf size at hosts, "first" compares only the first host with the guest.     *)
EXTENDS TreeSem, TLC, Json
CONSTANTS N, VALS, GS, HOSTS, MINLEAF, DEPTH, MUT, GENERATE
VARIABLES d, mem, lev, queue, nodes, created
vars == <<d, mem, lev, queue, nodes, created>>
Mk(x, g, ml, dep) == [n |-> N, X |-> [p \in 1..(HOSTS + 1) |-> [k \in 1..N |-> <<x[p][k]>>]],
    SP |-> [p \in 1..(HOSTS + 1) |-> << <<0, 1>> >>], valid |-> [p \in 1..(HOSTS + 1) |-> <<1>>],
    g |-> [k \in 1..N |-> g[k] - 2], h |-> [k \in 1..N |-> 1], lamnum |-> 1, lamden |-> 1, minum |-> 0, miden |-> 1, minleaf |-> ml, minsample |-> 2, depth |-> dep]
Init == /\ \E x \in [1..(HOSTS + 1) -> [1..N -> VALS]], g \in [1..N -> GS], ml \in MINLEAF, dep \in DEPTH : d = Mk(x, g, ml, dep)
        /\ mem = [i \in {0} |-> 1..N] /\ lev = [i \in {0} |-> 1] /\ queue = <<0>> /\ nodes = <<>> /\ created = 1
Cands(p, S) == {c \in Candidates(d) : c[1] = p /\ Exceeds(d, S, Split(d, S, LeftOf(d, S, c)))
                                    /\ (Admissible(d, S, c) \/ (MUT = "hostmin" /\ p > 1))}
Local(p, S) == Best(d, S, Cands(p, S))
Sp(S, c) == Split(d, S, LeftOf(d, S, c))
HostStage(S) == LET hs == IF MUT = "first" THEN {2} ELSE 2..(HOSTS + 1)
                    all == UNION {Local(p, S) : p \in hs}
                IN Best(d, S, all)
Staged(S) == LET hb == HostStage(S) gb == Local(1, S)
             IN IF gb = {} THEN hb ELSE IF hb = {} THEN gb
                ELSE LET x == Sp(S, CHOOSE c \in gb : TRUE) y == Sp(S, CHOOSE c \in hb : TRUE)
                     IN IF MUT = "hosttie" THEN (IF GainGT(x, y) THEN gb ELSE hb) ELSE (IF GainGT(y, x) THEN hb ELSE gb)
Leaf(i) == /\ (lev[i] = d.depth \/ Staged(mem[i]) = {})
           /\ nodes' = Append(nodes, [id |-> i, leaf |-> TRUE, l |-> 0, r |-> 0, c |-> <<0, 0, 0>>])
           /\ queue' = Tail(queue) /\ UNCHANGED <<d, mem, lev, created>>
Branch(i) == /\ lev[i] < d.depth
             /\ \E c \in Staged(mem[i]) :
                  LET L == LeftOf(d, mem[i], c) IN
                  /\ nodes' = Append(nodes, [id |-> i, leaf |-> FALSE, l |-> created, r |-> created + 1, c |-> c])
                  /\ mem' = [j \in DOMAIN mem \cup {created, created + 1} |-> IF j = created THEN L ELSE IF j = created + 1 THEN mem[i] \ L ELSE mem[j]]
                  /\ lev' = [j \in DOMAIN lev \cup {created, created + 1} |-> IF j \in {created, created + 1} THEN lev[i] + 1 ELSE lev[j]]
                  /\ queue' = Tail(queue) \o <<created, created + 1>>
                  /\ created' = created + 2
             /\ UNCHANGED d
DoLeaf == queue # <<>> /\ Leaf(Head(queue))
DoBranch == queue # <<>> /\ Branch(Head(queue))
Next == DoLeaf \/ DoBranch
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the staged choice is the global one
Lossless == \A j \in 1..Len(nodes) : LET x == nodes[j] IN
    IF x.leaf THEN lev[x.id] = d.depth \/ Good(d, mem[x.id]) = {} ELSE x.c \in Allowed(d, mem[x.id])
Numbered == \A j \in 1..Len(nodes) : nodes[j].id = j - 1
Leaves == {nodes[j].id : j \in {k \in 1..Len(nodes) : nodes[k].leaf}}
Frontier == Leaves \cup {queue[j] : j \in 1..Len(queue)}
Partition == /\ UNION {mem[i] : i \in Frontier} = 1..N
             /\ \A i, j \in Frontier : i # j => mem[i] \cap mem[j] = {}
SumsAdd == \A j \in 1..Len(nodes) : ~nodes[j].leaf =>
    G(d, mem[nodes[j].l]) + G(d, mem[nodes[j].r]) = G(d, mem[nodes[j].id])
SizesOK == \A i \in DOMAIN mem : i # 0 => Cardinality(mem[i]) >= d.minleaf
Shallow == \A i \in DOMAIN lev : lev[i] <= d.depth
Emit == (GENERATE /\ queue = <<>>) => PrintT("BEHAVIOUR " \o ToJson([x |-> d.X, g |-> d.g, minleaf |-> d.minleaf, depth |-> d.depth,
    nodes |-> [j \in 1..Len(nodes) |-> <<nodes[j].id, IF nodes[j].leaf THEN 1 ELSE 0, nodes[j].c[1], nodes[j].c[3]>>]]))
Finishes == <>(queue = <<>> /\ created = Len(nodes))
=============================================================================
