------------------------------- MODULE DrawMC -------------------------------
(* A forest: for every tree each party draws its features, then the tree splits on drawn features. FAULT:      *)
(* "rep" draws with replacement, "ceil" rounds up, "zero" may draw none, "old" splits by the masks of the     *)
(* previous tree, "other" applies the guest's mask at the hosts, "first" always takes the first features.     *)
EXTENDS Draw, TLC
CONSTANTS FEATS, NUM, DEN, TREES, FAULT
VARIABLES tree, mask, prev, ever, splits
vars == <<tree, mask, prev, ever, splits>>
F342 == <<3, 4, 2>>
F55 == <<5, 5>>
F13 == <<1, 3>>
F653 == <<6, 5, 3>>
P == 1..Len(FEATS)
None == {0}
Init == tree = 1 /\ mask = [p \in P |-> None] /\ prev = [p \in P |-> 1..FEATS[p]] /\ ever = [p \in P |-> {}] /\ splits = <<>>
Cnt(p) == IF FAULT = "ceil" THEN Max(1, (FEATS[p] * NUM + DEN - 1) \div DEN) ELSE IF FAULT = "zero" THEN (FEATS[p] * NUM) \div DEN ELSE Share(FEATS[p], NUM, DEN)
Choices(p) == IF FAULT = "first" THEN {1..Cnt(p)}
              ELSE {s \in SUBSET (1..FEATS[p]) : IF FAULT = "rep" THEN s # {} /\ Cardinality(s) <= Cnt(p) ELSE Cardinality(s) = Cnt(p)}
DrawOf(p) == mask[p] = None /\ \E s \in Choices(p) : mask' = [mask EXCEPT ![p] = s] /\ ever' = [ever EXCEPT ![p] = @ \cup s] /\ UNCHANGED <<tree, prev, splits>>
Ready == \A p \in P : mask[p] # None
Used(p) == IF FAULT = "old" THEN prev[p] ELSE IF FAULT = "other" THEN mask[1] \cap (1..FEATS[p]) ELSE mask[p]
SplitOn(p) == Ready /\ Len(splits) < 1 /\ \E f \in Used(p) : splits' = Append(splits, <<p, f>>) /\ UNCHANGED <<tree, mask, prev, ever>>
Grown == Ready /\ tree < TREES /\ tree' = tree + 1 /\ prev' = mask /\ mask' = [p \in P |-> None] /\ splits' = <<>> /\ UNCHANGED ever
Next == (\E p \in P : DrawOf(p) \/ SplitOn(p)) \/ Grown
Spec == Init /\ [][Next]_vars
Counts == \A p \in P : mask[p] # None => Cardinality(mask[p]) = Share(FEATS[p], NUM, DEN)
Owned == \A i \in 1..Len(splits) : splits[i][2] \in mask[splits[i][1]]
\* every feature can be drawn: this is violated by the good model, not by one that keeps to the first features
NeverAll == ~(\A p \in P : ever[p] = 1..FEATS[p])
Stuck == \A p \in P : ever[p] \subseteq 1..Share(FEATS[p], NUM, DEN)
=============================================================================
