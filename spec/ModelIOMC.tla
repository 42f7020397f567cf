----------------------------- MODULE ModelIOMC -----------------------------
EXTENDS ModelIO, TLC
CONSTANTS VALS, WEIGHTS, FAULT
VARIABLES ph, tree, mask, msg, back, again
vars == <<ph, tree, mask, msg, back, again>>
PARTIES == {0, 1}
Init == ph = "fit" /\ tree = <<>> /\ mask = <<>> /\ msg = <<>> /\ back = <<>> /\ again = <<>>
Leaf(i, w) == [id |-> i, site |-> 0, fid |-> 0, leaf |-> TRUE, w |-> w, l |-> 0 - 1, r |-> 0 - 1]
Branch(i, s, f, a, b) == [id |-> i, site |-> s, fid |-> f, leaf |-> FALSE, w |-> 0, l |-> a, r |-> b]
Fit == /\ ph = "fit" /\ ph' = "save" /\ UNCHANGED <<msg, back, again>>
       /\ \E s1, s2 \in PARTIES, f1, f2 \in 1..2, w \in [1..3 -> WEIGHTS], v1, v2 \in VALS, deep \in {TRUE, FALSE} :
            /\ tree' = IF deep THEN <<Branch(0, s1, f1, 1, 2), Branch(1, s2, f2, 3, 4), Leaf(2, w[1]), Leaf(3, w[2]), Leaf(4, w[3])>>
                       ELSE <<Branch(0, s1, f1, 1, 2), Leaf(1, w[1]), Leaf(2, w[2])>>
            /\ mask' = [p \in PARTIES |-> [i \in {j \in 0..1 : (j = 0 /\ s1 = p) \/ (j = 1 /\ deep /\ s2 = p)} |-> IF i = 0 THEN v1 ELSE v2]]
SaveNode(n) == IF FAULT = "weight" THEN [n EXCEPT !.w = @ \div 2] ELSE IF FAULT = "children" THEN [n EXCEPT !.l = n.r, !.r = n.l] ELSE IF FAULT = "site" THEN [n EXCEPT !.site = 0] ELSE n
SaveMask(m) == IF FAULT = "mask" THEN [i \in DOMAIN m \cap {0} |-> m[i]] ELSE m
Save(t, m) == [p \in PARTIES |-> [nodes |-> [i \in 1..Len(t) |-> SaveNode(t[i])], mask |-> SaveMask(m[p])]]
DoSave == ph = "save" /\ ph' = "load" /\ msg' = Save(tree, mask) /\ UNCHANGED <<tree, mask, back, again>>
DoLoad == ph = "load" /\ ph' = "resave" /\ back' = [t |-> msg[0].nodes, m |-> [p \in PARTIES |-> msg[p].mask]] /\ UNCHANGED <<tree, mask, msg, again>>
Resave == ph = "resave" /\ ph' = "done" /\ again' = Save(back.t, back.m) /\ UNCHANGED <<tree, mask, msg, back>>
Next == Fit \/ DoSave \/ DoLoad \/ Resave
Spec == Init /\ [][Next]_vars
Same == ph \in {"resave", "done"} => back.t = tree /\ back.m = mask
Stable == ph = "done" => again = msg
Alike == (ph = "done" /\ FAULT = "none") => \A x \in [PARTIES -> [1..2 -> VALS]] : Walk(back.t, back.m, x, 0) = Walk(tree, mask, x, 0)
=============================================================================
