------------------------------ MODULE Protocol ------------------------------
(* The message protocol of federated boosting. The guest and every host run a program of send and receive     *)
(* steps; a step is done once towards every host (guest) or once (host). Message kinds, in training: dim, enc, *)
(* queue, pos, cand, best, final, disp, dres, tree, stop; in prediction: fin, pdata, pres. The argument is the *)
(* size that both sides must agree on.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets
GuestSends == {"dim", "enc", "queue", "pos", "best", "disp", "tree", "stop", "fin", "pdata"}
HostSends == {"cand", "final", "dres", "pres"}
Min2(a, b) == IF a < b THEN a ELSE b
\* p: [n, depth, dim, rounds, batch, stop]; the size a message must have when its sender is in state g, 0 - 1: free
Start(n, pc, trees) == [pc |-> pc, todo |-> 1..n, dep |-> 0, q |-> 0, left |-> 0, tot |-> 0, tidx |-> 0, round |-> 0,
                        trees |-> trees, flag |-> 0, rows |-> 0]
Cur(p, g) == Min2(g.left, p.batch)
Size(p, g) == CASE g.pc = "dim" -> p.dim
                [] g.pc \in {"cand", "best", "final"} -> Cur(p, g)
                [] g.pc = "tree" -> g.tot
                [] OTHER -> 0 - 1
\* values a freely chosen argument may take
Free(p, g) == CASE g.pc = "queue" -> IF g.dep = 0 THEN {1} ELSE {2 * k : k \in 0..g.q}
                [] g.pc \in {"stop", "fin"} -> {0, 1}
                [] OTHER -> {}
IsFree(g) == g.pc \in {"queue", "stop", "fin"}
\* remember what the message says
Note(g, kind, arg) == CASE kind = "queue" -> [g EXCEPT !.q = arg, !.left = arg]
                        [] kind \in {"stop", "fin"} -> [g EXCEPT !.flag = arg]
                        [] kind \in {"disp", "pdata"} -> [g EXCEPT !.rows = arg]
                        [] OTHER -> g
Go(g, pc) == [g EXCEPT !.pc = pc]
EndRound(p, g) == IF g.round + 1 >= p.rounds THEN Go([g EXCEPT !.round = @ + 1], "end")
                  ELSE [Go(g, "enc") EXCEPT !.round = @ + 1, !.tidx = 0]
\* the step that follows g's current one; guest and hosts share it, because both must be in the same place
After(p, g) ==
    CASE g.pc = "dim" -> Go(g, "enc")
      [] g.pc = "enc" -> [Go(g, "queue") EXCEPT !.dep = 0, !.tot = 0, !.q = 0]
      [] g.pc = "queue" -> IF g.q = 0 THEN Go(g, "tree") ELSE Go(g, "pos")
      [] g.pc = "pos" -> Go(g, "cand")
      [] g.pc = "cand" -> Go(g, "best")
      [] g.pc = "best" -> Go(g, "final")
      [] g.pc = "final" -> IF g.left > p.batch THEN [Go(g, "cand") EXCEPT !.left = @ - p.batch] ELSE [Go(g, "disp") EXCEPT !.left = 0]
      [] g.pc = "disp" -> Go(g, "dres")
      [] g.pc = "dres" -> [Go(g, IF g.dep + 1 = p.depth THEN "tree" ELSE "queue") EXCEPT !.dep = @ + 1, !.tot = @ + g.q]
      [] g.pc = "tree" -> IF g.tidx + 1 < p.dim THEN [Go(g, "enc") EXCEPT !.tidx = @ + 1, !.trees = @ + 1]
                          ELSE IF p.stop = 1 THEN [Go(g, "stop") EXCEPT !.trees = @ + 1]
                          ELSE EndRound(p, [g EXCEPT !.trees = @ + 1])
      [] g.pc = "stop" -> IF g.flag = 1 THEN Go(g, "end") ELSE EndRound(p, g)
      [] g.pc = "fin" -> IF g.flag = 0 THEN Go(g, "pdata")
                         ELSE IF g.trees <= 1 THEN Go([g EXCEPT !.trees = 0], "end") ELSE [g EXCEPT !.trees = @ - 1]
      [] g.pc = "pdata" -> Go(g, "pres")
      [] g.pc = "pres" -> Go(g, "fin")
      [] OTHER -> g
\* the guest has dealt with host i in its current step
GuestDid(p, g, i) == IF g.todo \ {i} = {} THEN [After(p, g) EXCEPT !.todo = 1..p.n] ELSE [g EXCEPT !.todo = @ \ {i}]
=============================================================================
