------------------------------- MODULE ModelIO -------------------------------
(* A tree held in parts: every party has the nodes and the thresholds of its own splits only. Saving writes nodes,   *)
(* thresholds and settings to a message; loading makes a tree object of a message.                                   *)
EXTENDS Integers, Sequences, FiniteSets
NodeOf(t, id) == CHOOSE n \in {t[i] : i \in 1..Len(t)} : n.id = id
RECURSIVE Walk(_, _, _, _)
\* x: value per party and feature; m: thresholds per party and node
Walk(t, m, x, id) == LET n == NodeOf(t, id) IN
    IF n.leaf THEN n.w ELSE Walk(t, m, x, IF x[n.site][n.fid] <= m[n.site][n.id] THEN n.l ELSE n.r)
=============================================================================
