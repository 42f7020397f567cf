------------------------------- MODULE RouteMC -------------------------------
(* Joint routing of one sample through a tree whose nodes belong to different parties. The tree is a complete  *)
(* binary tree of INNER internal nodes 1..INNER (children 2i, 2i+1); owner[i] = 0 for the guest, otherwise a    *)
(* host; bit[i] says whether the sample goes left at i. Rounds as in prediction: the guest walks its own nodes, *)
(* asks all hosts, each host walks its own nodes and marks its answer, the guest merges the answers.            *)
(* MUT = "last" merges by always taking the last host's answer; "one" lets a host walk a single step (harmless).*)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS INNER, HOSTS, MUT
VARIABLES owner, bit, at, phase, answers, done
vars == <<owner, bit, at, phase, answers, done>>
Leaf(i) == i > INNER
Child(i) == IF bit[i] THEN 2 * i ELSE 2 * i + 1
RECURSIVE Direct(_)
Direct(i) == IF Leaf(i) THEN i ELSE Direct(Child(i))
RECURSIVE WalkOwn(_, _)
WalkOwn(i, p) == IF Leaf(i) \/ owner[i] # p THEN i ELSE IF MUT = "one" THEN Child(i) ELSE WalkOwn(Child(i), p)
Init == /\ owner \in [1..INNER -> 0..HOSTS] /\ bit \in [1..INNER -> BOOLEAN]
        /\ at = 1 /\ phase = "guest" /\ answers = [p \in {} |-> <<0, 0>>] /\ done = FALSE
Guest == /\ phase = "guest" /\ ~done
         /\ LET i == WalkOwn(at, 0) IN
            IF Leaf(i) THEN done' = TRUE /\ at' = i /\ UNCHANGED <<phase, answers>>
            ELSE at' = i /\ phase' = "hosts" /\ answers' = [p \in {} |-> <<0, 0>>] /\ UNCHANGED done
         /\ UNCHANGED <<owner, bit>>
\* a host whose node it is answers with its own mark 0, any other passes the state on with mark 1
Host(p) == /\ phase = "hosts" /\ p \notin DOMAIN answers
           /\ answers' = [q \in DOMAIN answers \cup {p} |-> IF q # p THEN answers[q]
                            ELSE IF owner[at] = p THEN <<WalkOwn(at, p), 0>> ELSE <<at, 1>>]
           /\ UNCHANGED <<owner, bit, at, phase, done>>
RECURSIVE Merge(_, _)
Merge(st, p) == IF p > HOSTS THEN st ELSE Merge(IF MUT = "last" THEN answers[p] ELSE IF st[2] = 0 THEN st ELSE answers[p], p + 1)
Collect == /\ phase = "hosts" /\ DOMAIN answers = 1..HOSTS
           /\ at' = Merge(<<at, 1>>, 1)[1] /\ phase' = "guest"
           /\ UNCHANGED <<owner, bit, answers, done>>
Next == Guest \/ Collect \/ \E p \in 1..HOSTS : Host(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OneLeaf == done => at = Direct(1)
OnPath == Direct(at) = Direct(1)
Progress == <>done
=============================================================================
