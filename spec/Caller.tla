------------------------------- MODULE Caller -------------------------------
(* The caller's data as the caller sees it: tables of samples, samples holding feature vectors, all held by          *)
(* reference. Library calls may build new objects and share old ones, but what the caller sees must not change.      *)
EXTENDS Integers, Sequences, FiniteSets
\* heap h: table -> sequence of row addresses; row -> [feat, label]; feature address -> sequence of numbers
View(h, t) == [i \in 1..Len(h.tab[t]) |-> [x |-> h.vec[h.row[h.tab[t][i]].feat], y |-> h.row[h.tab[t][i]].label]]
Fresh(f) == Cardinality(DOMAIN f) + 1
Put(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
=============================================================================
