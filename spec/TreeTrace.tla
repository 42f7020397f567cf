------------------------------ MODULE TreeTrace ------------------------------
(* Checks a recorded training (and prediction) of one tree against TreeSem. Nodes arrive in storage order;    *)
(* the specification keeps, for every node announced so far, the samples it must hold. A trace's focus        *)
(* selects the clauses of one property.                                                                       *)
EXTENDS TreeSem, TraceKit
Foc(d, fs, name, ok) == IF d.focus \in fs THEN Bad(name, ok) ELSE {}
TInitSt(t) == [d |-> t, nodes |-> <<>>, mem |-> [i \in {0} |-> 1..t.n], lev |-> [i \in {0} |-> 1],
               created |-> 1, dead |-> FALSE, seen |-> {}, imp |-> <<>>]
P(e) == e.site + 1
Known(s, e) == e.id \in DOMAIN s.mem
SiteOK(d, e) == e.site >= 0 /\ P(e) <= Len(d.X) /\ e.fid >= 0 /\ e.fid + 1 <= Len(d.SP[P(e)])
BinsOf(d, e) == {b \in 1..Len(d.SP[P(e)][e.fid + 1]) : d.SP[P(e)][e.fid + 1][b] = e.thr}
Cand(d, e) == <<P(e), e.fid + 1, CHOOSE b \in BinsOf(d, e) : TRUE>>
CandOK(d, e) == SiteOK(d, e) /\ BinsOf(d, e) # {}
Children(s, e) == {e.left, e.right}
Shape(s, e) == e.left # e.right /\ Children(s, e) = {s.created, s.created + 1}
Usable(s, e) == ~e.leaf /\ CandOK(s.d, e) /\ Shape(s, e)
NodeFails(s, e) ==
    LET d == s.d S == s.mem[e.id]
    IN IF e.id # Len(s.nodes) \/ ~Known(s, e)
       THEN Foc(d, {"C07", "C06", "C09", "C19", "C25", "C18"}, "nodes are numbered consecutively in level order and have a parent", FALSE)
       ELSE IF e.leaf
       THEN   Foc(d, {"C07"}, "leaves belong to the guest", e.site = 0)
         \cup Foc(d, {"C06", "C19"}, "a node stays a leaf only without an admissible split of sufficient gain", s.lev[e.id] = d.depth \/ Good(d, S) = {})
       ELSE   Foc(d, {"C07", "C06", "C09", "C19"}, "internal nodes name an existing party, feature and split point", CandOK(d, e))
         \cup Foc(d, {"C07", "C09", "C19"}, "internal nodes have exactly two distinct later children of their own", Shape(s, e))
         \cup Foc(d, {"C07"}, "no leaf lies deeper than the configured levels", s.lev[e.id] < d.depth)
         \cup (IF ~CandOK(d, e) THEN {}
               ELSE    Foc(d, {"C06", "C19"}, "the chosen split is admissible and exceeds the minimum impurity", Cand(d, e) \in Good(d, S))
                  \cup Foc(d, {"C25", "C06"}, "a split uses only a feature drawn for the tree", d.valid[P(e)][e.fid + 1] = 1)
                  \cup Foc(d, {"C06", "C19"}, "the chosen split has the greatest gain, ties going to the guest",
                           Cand(d, e) \in Good(d, S) => Cand(d, e) \in Allowed(d, S)))
StatFails(s, e) ==
    LET d == s.d S == s.mem[e.id]
    IN IF ~Known(s, e) THEN {}
       ELSE   Foc(d, {"C07"}, "gradient and hessian sums of a node are those of its samples", e.g = 1000 * G(d, S) /\ e.h = 1000 * H(d, S))
         \cup Foc(d, {"C07", "C19"}, "the weight is minus the gradient sum over hessian sum plus regulariser", HL(d, S) > 0 => WeightOK(d, S, e.w))
AddNode(s, e) ==
    LET d == s.d S == s.mem[e.id]
        c == Cand(d, e) L == LeftOf(d, S, c)
        s1 == [s EXCEPT !.nodes = Append(@, e)]
    IN IF Usable(s, e)
       THEN [s1 EXCEPT !.mem = [i \in DOMAIN s.mem \cup {e.left, e.right} |-> IF i = e.left THEN L ELSE IF i = e.right THEN S \ L ELSE s.mem[i]],
                       !.lev = [i \in DOMAIN s.lev \cup {e.left, e.right} |-> IF i \in {e.left, e.right} THEN s.lev[e.id] + 1 ELSE s.lev[i]],
                       !.created = @ + 2,
                       !.imp = Append(@, <<e.site, e.fid, IF d.imp = "split" THEN <<1, 1>> ELSE
                                   LET x == Split(d, S, L) g == G(d, S) h == HL(d, S) IN <<(x[1] * h - g * g * x[2]) * d.lamden, x[2] * h>>>>)]
       ELSE IF e.leaf THEN s1 ELSE [s1 EXCEPT !.dead = TRUE]
\* all nodes announced, none missing
Complete(s) == ~s.dead /\ s.nodes # <<>> /\ s.created = Len(s.nodes)
LeafOfTrain(s, k) == CHOOSE i \in DOMAIN s.mem : k \in s.mem[i] /\ s.nodes[i + 1].leaf
RECURSIVE Walk(_, _, _)
Walk(s, X, i) == LET e == s.nodes[i + 1] IN
    IF e.leaf THEN i ELSE IF X[P(e)][e.fid + 1] <= e.thr THEN Walk(s, X, e.left) ELSE Walk(s, X, e.right)
LeafOf(s, k) == IF k <= s.d.n THEN LeafOfTrain(s, k)
                ELSE Walk(s, [p \in 1..Len(s.d.X) |-> s.d.NX[p][k - s.d.n]], 0)
\* importances: sum per (party, feature) of the increments, compared in thousandths with float tolerance
ImpKeys(s) == {<<s.imp[i][1], s.imp[i][2]>> : i \in 1..Len(s.imp)}
RECURSIVE ImpSum(_, _, _)
Milli(q) == LET ip == q[1] \div q[2] fr == q[1] % q[2] IN 1000 * ip + (1000 * fr) \div q[2]
ImpSum(s, key, i) == IF i = 0 THEN 0
                     ELSE (IF <<s.imp[i][1], s.imp[i][2]>> = key THEN Milli(s.imp[i][3]) ELSE 0) + ImpSum(s, key, i - 1)
ImpOK(s, items) == /\ {<<items[i][1], items[i][2]>> : i \in 1..Len(items)} = ImpKeys(s)
                   /\ \A i \in 1..Len(items) : Abs(items[i][3] - ImpSum(s, <<items[i][1], items[i][2]>>, Len(s.imp))) <= Len(s.imp) + 1
HostTreeOK(s, e) == Len(e.nodes) = Len(s.nodes) /\ \A i \in 1..Len(e.nodes) :
    LET x == e.nodes[i] y == s.nodes[i] IN
    x[1] = y.id /\ x[6] = (IF y.leaf THEN 1 ELSE 0) /\ x[4] = y.left /\ x[5] = y.right /\ (~y.leaf => x[2] = y.site)
KeptOK(s, e) == {<<e.kept[i][1], e.kept[i][2]>> : i \in 1..Len(e.kept)} =
                {<<s.nodes[i].id, s.nodes[i].thr>> : i \in {j \in 1..Len(s.nodes) : s.nodes[j].site = e.host /\ ~s.nodes[j].leaf}}
TFails(s, e) ==
    CASE e.op = "run" -> Bad("the run completes for every party", e.out = "ok") \cup Bad("no message is left unread", e.left = 0)
      [] e.op = "node" -> NodeFails(s, e) \cup StatFails(s, e)
      [] e.op = "end" -> Foc(s.d, {"C06", "C07", "C09", "C19", "C25"}, "every child named by a node exists", Complete(s))
      [] e.op = "hosttree" -> Foc(s.d, {"C07"}, "guest and hosts hold the same tree", HostTreeOK(s, e))
                         \cup Foc(s.d, {"C07"}, "a host keeps the thresholds of exactly its own nodes", KeptOK(s, e))
      [] e.op = "importance" -> Foc(s.d, {"C07"}, "feature importances count (or add the gain of) the splits using each feature", ImpOK(s, e.items))
      [] e.op = "leafw" -> IF ~Complete(s) THEN {} ELSE
              Foc(s.d, {"C09", "C19"}, "every training sample receives one leaf weight", e.cnt = 1)
         \cup Foc(s.d, {"C09", "C19"}, "a training sample receives the weight of its own leaf", e.w = s.nodes[LeafOfTrain(s, e.k) + 1].w)
      [] e.op = "extra" -> Foc(s.d, {"C09"}, "only given samples receive a weight", e.n = 0)
      [] e.op = "pred" -> IF ~Complete(s) THEN {} ELSE
              Foc(s.d, {"C09", "C18", "C19"}, "prediction follows the split decisions to the sample's leaf", e.w = s.nodes[LeafOf(s, e.k) + 1].w)
TStep(s, e) == CASE e.op = "node" -> AddNode(s, e)
                 [] e.op = "leafw" -> [s EXCEPT !.seen = @ \cup {e.k}]
                 [] OTHER -> s
TFinal(s) == {}
=============================================================================
